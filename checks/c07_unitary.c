/* C07: links stay special unitary through every sequence of operations */
#include "fx.h"
#include "mc.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "U_Nops.h"
#include "gramschmidt.h"
#include "gtrans.h"
#include "random_config.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

static struct op ops[ OP_MAX ] ; static int nops ;
static double worst ; static int nofinite ; /* the logarithm of -1 does not exist */
/* 1 if the chain ends here */
static int judge( const char *w , const struct op *o , const struct opout *r , int s , int sig )
{
  long i ;
  if( s ) { mc_fail( "crash" , "%s: %s (%d)" , w , s == 1 ? "crashes" : s == 2 ? "hangs" : s == 3 ? "deadlocks" : "exits" , sig ) ; return 1 ; }
  if( !r->havefield ) return 1 ;
  if( r->unit > worst ) worst = r->unit ;
  if( !( r->unit < 1e-9 ) ) { mc_fail( "unitary" , "%s: links are off special unitarity by %g" , w , r->unit ) ; return 1 ; }
  for( i = 0 ; i < r->nobs && !nofinite ; i++ ) if( !isfinite( r->obs[i] ) ) { mc_fail( "finite" , "%s: reports a number that is not finite (number %ld)" , w , i ) ; return 1 ; }
  return 0 ;
  (void)o ;
}
static struct opout *out[ 4 ] ;
static void tree( const cplx *U , const int *set , int nset , int depth , int level , const char *pre )
{
  int k , sig ; char w[ 400 ] ;
  for( k = 0 ; k < nset && !mc_nfail( ) ; k++ ) {
    const struct op *o = &ops[ set[k] ] ;
    snprintf( w , sizeof( w ) , "%s, %s" , pre , o->name ) ; mc_progress( "%s" , w ) ;
    const int s = op_fork( o , U , out[ level ] , 60 , NULL , NULL , &sig ) ; mc_traces( 1 ) ; mc_trans( 1 ) ;
    if( judge( w , o , out[ level ] , s , sig ) ) continue ;
    mc_states( 1 ) ; mc_distinct( fx_hash( out[ level ]->field ) ) ;
    if( depth > 1 ) { cplx *V = fx_dup( out[ level ]->field ) ; tree( V , set , nset , depth - 1 , level + 1 , w ) ; free( V ) ; }
  }
}
/* perturbed links are brought back to the group */
static void reunit( int kind )
{
  cplx *U = fx_field( kind , 3 ) ; int e ; size_t i ; uint64_t s = 99 ; double a , b ;
  for( e = 1 ; e < 14 ; e++ ) {
    const double eps = 0.3*pow( 10.0 , -( e - 1 ) ) ;
    cplx *V = fx_dup( U ) ; for( i = 0 ; i < fxV*ND*NN ; i++ ) V[i] += eps*( ( fx_uni( &s ) - 0.5 ) + I*( fx_uni( &s ) - 0.5 ) ) ;
    struct site *lat = fx_lat( V ) ;
    latt_reunitU( lat ) ; mc_traces( 1 ) ; mc_trans( 1 ) ; mc_states( 1 ) ;
    a = fx_unitarity( lat ) ; b = fx_distlat( lat , U ) ;
    if( !( a < 1e-12 ) ) mc_fail( "reunit" , "reunitarised links are off the group by %g (noise %g)" , a , eps ) ;
    if( !( b < 10*NC*eps + 1e-13 ) ) mc_fail( "reunit" , "reunitarised links are %g away from those before a noise of %g" , b , eps ) ;
    fx_put( lat , V ) ;
    /* site by site */
    GLU_complex **g = malloc( fxV*sizeof( GLU_complex* ) ) ; int k ;
    for( i = 0 ; i < fxV ; i++ ) { g[i] = NULL ; if( posix_memalign( (void**)&g[i] , 16 , sizeof( GLU_complex[NN] ) ) ) abort( ) ; for( k = 0 ; k < NN ; k++ ) g[i][k] = V[ i*ND*NN + k ] ; }
    latt_reunitg( g ) ;
    for( i = 0 ; i < fxV ; i++ ) { cplx m[ NN ] ; for( k = 0 ; k < NN ; k++ ) m[k] = g[i][k] ; if( !( m_unit( m ) < 1e-12 ) ) { mc_fail( "reunit" , "transformation matrix of site %zu is off the group by %g" , i , m_unit( m ) ) ; break ; } free( g[i] ) ; }
    free( g ) ; free_lat( lat ) ; free( V ) ;
  }
  free( U ) ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C07" , "c07_unitary" ) ; mc_timeout( 600 ) ;
  nops = ops_all( ops ) ; int i , s , k , nset = 0 , set[ OP_MAX ] , nfast = 0 , fast[ OP_MAX ] ;
  attach_GLU( ) ; mcomp_config( 1 , POL_RR ) ; mcenv_membytes = 1LL << 40 ;
  for( i = 0 ; i < nops ; i++ ) {
    if( !( ops[i].flags & OPF_FIELD ) || !strncmp( ops[i].name , "u1" , 2 ) || strstr( ops[i].name , "u1" ) ) continue ;
    if( ( ops[i].flags & OPF_FFT ) && !op_fftw ) continue ;
    set[ nset++ ] = i ; if( !( ops[i].flags & OPF_SLOW ) || NC < 4 ) fast[ nfast++ ] = i ;
  }
  for( i = 0 ; i < 4 ; i++ ) out[i] = op_new( ) ;
  size_t *sh ; const int ns = fx_few_shapes( &sh , 2 ) ;
  for( s = 0 ; s < ns ; s++ ) {
    char n[ 100 ] = "" ; int l = 0 , mu ; for( mu = 0 ; mu < ND ; mu++ ) l += sprintf( n + l , "%s%zu" , mu ? "x" : "" , sh[ s*ND + mu ] ) ;
    for( k = 0 ; k < F_NKIND ; k++ ) {
      for( i = 0 ; i < nset ; i++ ) {
	/* staples of centre elements have no unique projection */
	if( k == F_CENTER && ( ops[ set[i] ].flags & OPF_COV ) && strcmp( ops[ set[i] ].name , "gtransform" ) ) continue ;
	const int deep = k != F_CENTER && ( mc_thorough( ) || NC < 4 || !( ops[ set[i] ].flags & OPF_SLOW ) ) && ( s == 0 || ( s == 1 && mc_thorough( ) ) ) ;
	if( mc_begin( "sequences %s %s from %s" , n , fx_kindname[k] , ops[ set[i] ].name ) ) {
	  fx_dims( sh + s*ND ) ; mcomp_config( 1 + 2*( s%2 ) , POL_RR ) ; fx_undims( ) ; fx_dims( sh + s*ND ) ;
	  nofinite = k == F_CENTER ; cplx *U = fx_field( k , 5 ) ; int sig ;
	  const int st = op_fork( &ops[ set[i] ] , U , out[0] , 60 , NULL , NULL , &sig ) ; mc_traces( 1 ) ; mc_trans( 1 ) ;

	  if( !judge( ops[ set[i] ].name , &ops[ set[i] ] , out[0] , st , sig ) && deep ) {
	    cplx *V = fx_dup( out[0]->field ) ; mc_states( 1 ) ;
	    tree( V , fast , nfast , mc_thorough( ) && NC == 3 && s == 0 && k == F_MED ? 2 : 1 , 1 , ops[ set[i] ].name ) ;
	    free( V ) ;
	  }
	  mc_sample( "largest departure %.1e" , worst ) ;
	  free( U ) ; fx_undims( ) ; mc_end( ) ;
	}
      }
      if( mc_begin( "reunitarise %s %s" , n , fx_kindname[k] ) ) { fx_dims( sh + s*ND ) ; reunit( k ) ; fx_undims( ) ; mc_end( ) ; }
    }
  }
  free( sh ) ;
  return mc_finish( ) ;
}
