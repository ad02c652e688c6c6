/* C06: gauge covariance of every operation and invariance of every observable */
#include "fx.h"
#include "mc.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "gtrans.h"
#include "random_config.h"
#include "par_rng.h"
#include "plaqs_links.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

static struct op ops[ OP_MAX ] ; static int nops ;
enum { G_ID , G_CENTRE , G_DIAG , G_HOT , G_ONE , G_WEAK , G_SLICE , G_N } ;
static const char *gname[] = { "identity" , "centre" , "diagonal" , "hot" , "one-site" , "weak" , "one-slice" } ;
static cplx *gf( int k )
{
  size_t i ; cplx *g ;
  switch( k ) {
  case G_ID : g = malloc( fxV*NN*sizeof( cplx ) ) ; for( i = 0 ; i < fxV ; i++ ) m_id( g + i*NN ) ; return g ;
  case G_CENTRE : return fx_gfield( F_CENTER , 31 ) ;
  case G_DIAG : return fx_gfield( F_DIAG , 31 ) ;
  case G_WEAK : return fx_gfield( F_WEAK , 31 ) ;
  case G_ONE : g = fx_gfield( F_HOT , 31 ) ; for( i = 0 ; i < fxV ; i++ ) if( i != fxV/2 ) m_id( g + i*NN ) ; return g ;
  case G_SLICE : g = fx_gfield( F_HOT , 31 ) ; for( i = 0 ; i < fxV ; i++ ) { int x[ ND ] ; fx_coord( x , i ) ; if( x[ ND-1 ] != 1 ) m_id( g + i*NN ) ; } return g ;
  }
  return fx_gfield( F_HOT , 31 ) ;
}
static GLU_complex **rows( const cplx *g )
{
  GLU_complex **G = malloc( fxV*sizeof( GLU_complex* ) ) ; size_t i ; int k ;
  for( i = 0 ; i < fxV ; i++ ) { G[i] = NULL ; if( posix_memalign( (void**)&G[i] , 16 , NN*sizeof( GLU_complex ) ) ) abort( ) ; for( k = 0 ; k < NN ; k++ ) G[i][k] = g[ i*NN + k ] ; }
  return G ;
}
/* the library's transformation against the definition, whole lattice and slice by slice */
static void transform( int kind , int gk , int threads )
{
  cplx *U = fx_field( kind , 3 ) , *g = gf( gk ) , *V = r_gtrans( U , g ) ; GLU_complex **G = rows( g ) ; size_t t , u ; double d ;
  mcomp_config( threads , POL_RR ) ;
  struct site *lat = fx_lat( U ) ;
  gtransform( lat , (const GLU_complex**)G ) ; mc_traces( 1 ) ; mc_trans( 1 ) ;
  d = fx_distlat( lat , V ) ; if( !( d < 1e-12 ) ) mc_fail( "transform" , "gtransform differs from g U g^dagger by %g" , d ) ;
  free_lat( lat ) ;
  lat = fx_lat( U ) ;
  for( t = 0 ; t < Latt.dims[ ND-1 ] ; t++ ) {
    u = ( t + 1 )%Latt.dims[ ND-1 ] ;
    gtransform_slice( (const GLU_complex**)G + Latt.Lcu*t , lat , (const GLU_complex**)G + Latt.Lcu*u , t ) ; mc_trans( 1 ) ;
    /* the other slices are not touched yet */
    cplx *W = fx_get( lat ) ; size_t i ; int mu ;
    for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) {
      const size_t ti = i/Latt.Lcu ; const cplx *want = ti <= t ? L( V , i , mu ) : L( U , i , mu ) ;
      if( !( m_dist( L( W , i , mu ) , want ) < 1e-12 ) ) { mc_fail( "slice" , "gtransform_slice( %zu ): link of site %zu direction %d is not the one expected" , t , i , mu ) ; i = fxV-1 ; break ; }
    }
    free( W ) ;
  }
  mc_traces( 1 ) ;
  free_lat( lat ) ;
  for( t = 0 ; t < fxV ; t++ ) free( G[t] ) ;
  free( G ) ; free( g ) ; free( U ) ; free( V ) ;
}
/* a random transformation by the library: same loops, links in the orbit */
static void randomtrans( int kind , int threads )
{
  cplx *U = fx_field( kind , 3 ) , *V ; int mu , nu ; size_t i ; Latt.Seed[0] = 991 ;
  mcomp_config( threads , POL_RR ) ;
  struct site *lat = fx_lat( U ) ;
  random_gtrans( lat ) ; mc_traces( 1 ) ; mc_trans( 1 ) ;
  V = fx_get( lat ) ;
  if( !( fx_unitarity( lat ) < 1e-10 ) ) mc_fail( "unitary" , "random transformation leaves links that are not special unitary" ) ;
  /* reconstruct g along the axes from g(0)=1 up to a global matrix: check all traces of plaquettes and of open loops instead */
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) for( nu = 0 ; nu < ND ; nu++ ) if( mu != nu ) {
    cplx a[ NN ] , b[ NN ] , a2[ NN ] , b2[ NN ] ; r_plaqm( a , U , i , mu , nu ) ; r_plaqm( b , V , i , mu , nu ) ; m_mul( a2 , a , a ) ; m_mul( b2 , b , b ) ;
    if( cabs( m_tr( a ) - m_tr( b ) ) > 1e-10 || cabs( m_tr( a2 ) - m_tr( b2 ) ) > 1e-10 ) { mc_fail( "orbit" , "plaquette trace changed at site %zu" , i ) ; i = fxV-1 ; mu = ND ; break ; }
  }
  for( mu = 0 ; mu < ND ; mu++ ) for( i = 0 ; i < fxV ; i++ ) {
    cplx a[ NN ] , b[ NN ] ; size_t x = i , k ; m_id( a ) ; m_id( b ) ;
    for( k = 0 ; k < Latt.dims[ mu ] ; k++ ) { m_mul( a , a , L( U , x , mu ) ) ; m_mul( b , b , L( V , x , mu ) ) ; x = fx_up( x , mu ) ; }
    if( cabs( m_tr( a ) - m_tr( b ) ) > 1e-10 ) { mc_fail( "orbit" , "loop around the lattice changed at site %zu direction %d" , i , mu ) ; break ; }
  }
  if( fx_dist( U , V ) < 1e-3 ) mc_fail( "trivial" , "random transformation did nothing" ) ;
  free_lat( lat ) ; free( U ) ; free( V ) ;
}
static void invariance( const struct op *o , int kind , int thr )
{
  cplx *U = fx_field( kind , 13 ) ; struct opout *a = op_new( ) , *b = op_new( ) ; int s , sig , k ;
  mcomp_config( thr , POL_RR ) ; { size_t d[ ND ] ; int m ; for( m = 0 ; m < ND ; m++ ) d[m] = Latt.dims[m] ; fx_dims( d ) ; }
  s = op_fork( o , U , a , 60 , NULL , NULL , &sig ) ; mc_traces( 1 ) ;
  if( s ) { mc_fail( "crash" , "%s fails (%d,%d)" , o->name , s , sig ) ; return ; }
  /* how strongly this operation amplifies rounding of its input on this field: a perturbation of the links at the rounding level */
  for( k = 0 ; k < G_N && !mc_nfail( ) ; k++ ) {
    cplx *g = gf( k ) , *V = r_gtrans( U , g ) ; const char *d ;
    mc_progress( "%s transformation" , gname[k] ) ;
    s = op_fork( o , V , b , 60 , NULL , NULL , &sig ) ; mc_traces( 1 ) ; mc_trans( 1 ) ; mc_states( 1 ) ;
    if( s ) mc_fail( "crash" , "%s fails (%d,%d) on the field transformed with %s" , o->name , s , sig , gname[k] ) ;
    else {
      if( o->flags & OPF_COV ) {
	if( a->havefield ) {
	  cplx *W = r_gtrans( a->field , g ) ; const double e = fx_dist( W , b->field ) ;
	  if( !( e < 1e-7 ) ) mc_fail( "covariance" , "%s: transforming with %s first or last differs by %g" , o->name , gname[k] , e ) ;
	  free( W ) ; a->havefield = b->havefield = 0 ;
	  d = op_diff( a , b , 1e-7 , 0 ) ; a->havefield = 1 ;
	} else d = op_diff( a , b , 1e-7 , 0 ) ;
      } else d = op_diff( a , b , 1e-7 , 0 ) ;
      if( d[0] ) mc_fail( "invariance" , "%s: changed by the %s transformation: %s" , o->name , gname[k] , d ) ;
      mc_distinct( mc_hash( o->name , strlen( o->name ) , k*7 + kind + 1 ) ) ;
    }
    free( g ) ; free( V ) ;
  }
  free( U ) ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C06" , "c06_gauge" ) ; mc_timeout( 300 ) ;
  nops = ops_all( ops ) ; op_nolinks = 1 ; int i , s , k , g , t ;
  attach_GLU( ) ; mcomp_config( 1 , POL_RR ) ; mcenv_membytes = 1LL << 40 ;
  size_t *sh ; const int ns = fx_few_shapes( &sh , 2 ) ;
  for( s = 0 ; s < ns ; s++ ) {
    char n[ 100 ] = "" ; int l = 0 , mu ; for( mu = 0 ; mu < ND ; mu++ ) l += sprintf( n + l , "%s%zu" , mu ? "x" : "" , sh[ s*ND + mu ] ) ;
    for( k = 0 ; k < F_NKIND ; k++ ) for( t = 1 ; t < 4 ; t += 2 ) {
      for( g = 0 ; g < G_N ; g++ ) if( mc_begin( "transform %s %s %s %d threads" , n , fx_kindname[k] , gname[g] , t ) ) { fx_dims( sh + s*ND ) ; transform( k , g , t ) ; fx_undims( ) ; mc_end( ) ; }
      if( mc_begin( "random-transform %s %s %d threads" , n , fx_kindname[k] , t ) ) { mcomp_config( t , POL_RR ) ; fx_dims( sh + s*ND ) ; randomtrans( k , t ) ; fx_undims( ) ; mc_end( ) ; }
    }
    for( i = 0 ; i < nops ; i++ ) {
      if( !( ops[i].flags & ( OPF_GINV|OPF_COV ) ) ) continue ;
      if( ( ops[i].flags & OPF_FFT ) && !op_fftw ) continue ;
      const int slow = ( ops[i].flags & OPF_SLOW ) && NC > 3 ;
      if( slow && s > 0 && !mc_thorough( ) ) continue ;
      for( k = 0 ; k < F_NKIND ; k++ ) {
	/* staples of centre elements cancel or have no unique projection and logarithm */
	if( k == F_CENTER && ( ops[i].flags & OPF_FIELD ) ) continue ;
	if( k != F_MED && k != F_WEAK && k != F_HOT && !( s == 0 && !slow ) && !mc_thorough( ) ) continue ;
	if( mc_begin( "invariance %s %s %s" , ops[i].name , n , fx_kindname[k] ) ) { fx_dims( sh + s*ND ) ; invariance( &ops[i] , k , 1 + 2*( s%2 ) ) ; fx_undims( ) ; mc_end( ) ; }
      }
    }
  }
  free( sh ) ;
  return mc_finish( ) ;
}
