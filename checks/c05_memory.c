/* C05: every answer to the memory probe leads to the same result */
#include "fx.h"
#include "mc.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>

static struct op ops[ OP_MAX ] ; static int nops ;
static const long long plenty = 1LL << 40 ;
static double fieldbytes( void ) { return 16.0*fxV*NN*ND + 8.0*fxV*ND ; }
static void setmem( void *v ) { mcenv_membytes = *(long long*)v ; }

static int refused( const struct op *o , const struct opout *r , const struct opout *ref , const cplx *U , const char *what )
{
  if( r->status == 0 || ( r->status == ref->status && !( r->status < 0 && r->havefield && fx_dist( r->field , U ) < 1e-12 ) ) ) return 0 ;
  /* refusing is fine if it says so and leaves the field alone */
  if( r->havefield && fx_dist( r->field , U ) > 1e-12 ) mc_fail( "refused" , "%s: refused with %s but the field was changed" , o->name , what ) ;
  return 1 ;
}
static void grid( const struct op *o , int kind , int per )
{
  cplx *U = fx_field( kind , 9 ) ; struct opout *ref = op_new( ) , *r = op_new( ) ; int k , sig , nref = 0 ; long long m = plenty ; char w[ 100 ] ;
  int s = op_fork( o , U , ref , 60 , setmem , &m , &sig ) ; mc_traces( 1 ) ;
  if( s ) { mc_fail( "crash" , "%s: fails (%d,%d) with plentiful memory" , o->name , s , sig ) ; return ; }
  for( k = -2*per ; k <= 6*per && !mc_nfail( ) ; k++ ) {
    m = k == -2*per ? 1 : (long long)( fieldbytes( )*pow( 2.0 , k/(double)per ) ) ;
    sprintf( w , "%lld bytes (%.2f configurations)" , m , m/fieldbytes( ) ) ; mc_progress( "%s" , w ) ;
    s = op_fork( o , U , r , 60 , setmem , &m , &sig ) ; mc_traces( 1 ) ; mc_states( 1 ) ;
    if( s ) { mc_fail( "crash" , "%s: %s (%d) with %s" , o->name , s == 1 ? "crashes" : s == 2 ? "hangs" : "exits" , sig , w ) ; break ; }
    mc_trans( r->probes ) ; mc_distinct( mc_hash( o->name , strlen( o->name ) , k + 1000 ) ) ;
    if( refused( o , r , ref , U , w ) ) { nref++ ; continue ; }
    const char *d = op_diff( ref , r , op_tol( o ) , 0 ) ;
    if( d[0] ) mc_fail( "differs" , "%s: with %s: %s" , o->name , w , d ) ;
  }
  if( nref ) mc_sample( "refused for %d of %d answers" , nref , 8*per + 1 ) ;
  free( U ) ;
}
/* sequences of operations in one process, each with its own answer */
struct hist { int n ; int op[ 3 ] , mem[ 3 ] ; struct opout *out[ 3 ] ; } ;
static const double lev[ 3 ] = { 0 , 6.0 , 0.01 } ;
static long long membytes( int l ) { return l == 0 ? plenty : l == 1 ? (long long)( lev[1]*fieldbytes( ) ) : 1 ; }
static void runhist( const cplx *U0 , struct hist *h , int *bad )
{
  int k , st ; mc_scratch( ) ;
  for( k = 0 ; k < h->n ; k++ ) h->out[k]->done = 0 ;
  fflush( NULL ) ;
  pid_t p = fork( ) ;
  if( p == 0 ) {
    alarm( 60 ) ;
    cplx *U = fx_dup( U0 ) ;
    for( k = 0 ; k < h->n ; k++ ) {
      mcenv_membytes = membytes( h->mem[k] ) ;
      op_run( &ops[ h->op[k] ] , U , h->out[k] ) ;
      if( h->out[k]->havefield ) { free( U ) ; U = fx_dup( h->out[k]->field ) ; }
    }
    _exit( 0 ) ;
  }
  while( waitpid( p , &st , 0 ) < 0 ) { }
  *bad = WIFSIGNALED( st ) ? ( WTERMSIG( st ) == SIGALRM ? 2 : 1 ) : WEXITSTATUS( st ) ? 3 : 0 ;
}
static void histories( const int *set , int nset , int depth , int first )
{
  cplx *U = fx_field( F_MED , 9 ) ; struct hist a , b ; int i , bad ; long c , n = 1 , m ;
  for( i = 0 ; i < depth ; i++ ) { a.out[i] = op_new( ) ; b.out[i] = op_new( ) ; }
  for( i = 1 ; i < depth ; i++ ) n *= nset ;
  long nm = 1 ; for( i = 0 ; i < depth ; i++ ) nm *= 3 ;
  for( c = 0 ; c < n && !mc_nfail( ) ; c++ ) {
    a.n = depth ; long q = c ; a.op[0] = first ; for( i = 1 ; i < depth ; i++ ) { a.op[i] = set[ q%nset ] ; q /= nset ; }
    memset( a.mem , 0 , sizeof( a.mem ) ) ; b.n = depth ; memcpy( b.op , a.op , sizeof( a.op ) ) ;
    runhist( U , &a , &bad ) ; mc_traces( 1 ) ;
    if( bad ) { mc_fail( "crash" , "history %s,%s.. fails with plentiful memory" , ops[ a.op[0] ].name , ops[ a.op[1] ].name ) ; break ; }
    for( m = 1 ; m < nm && !mc_nfail( ) ; m++ ) {
      q = m ; for( i = 0 ; i < depth ; i++ ) { b.mem[i] = q%3 ; q /= 3 ; }
      char w[ 300 ] ; int l = 0 ; for( i = 0 ; i < depth ; i++ ) l += sprintf( w + l , "%s%s[%d]" , i ? " then " : "" , ops[ b.op[i] ].name , b.mem[i] ) ;
      mc_progress( "%s" , w ) ;
      runhist( U , &b , &bad ) ; mc_traces( 1 ) ; mc_trans( depth ) ; mc_states( depth ) ; mc_distinct( mc_hash( w , l , 0 ) ) ;
      if( bad ) { mc_fail( "crash" , "%s: process %s" , w , bad == 2 ? "hangs" : "crashes or exits" ) ; break ; }
      const cplx *in = U ;
      for( i = 0 ; i < depth ; i++ ) {
	if( refused( &ops[ b.op[i] ] , b.out[i] , a.out[i] , in , w ) ) break ;
	const char *d = op_diff( a.out[i] , b.out[i] , op_tol( &ops[ b.op[i] ] ) , 0 ) ;
	if( d[0] ) { mc_fail( "differs" , "%s: step %d: %s" , w , i + 1 , d ) ; break ; }
	if( b.out[i]->havefield ) in = b.out[i]->field ;
      }
    }
  }
  free( U ) ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C05" , "c05_memory" ) ; mc_timeout( 300 ) ;
  nops = ops_all( ops ) ; int i , s , k ;
  static const char *hn[] = { "hyp" , "hex" , "hyl" , "wflow-stout" , "wflow-log" , "adaptive-stout" , "hyp-spatial" , "ape" , "write-0" , "write-1" , "write-2" , "write-3" , "write-4" , "write-5" , "write-6" , "write-7" , "landau" , "qmoments" } ;
  int set[ 32 ] , nset = 0 ;
  for( k = 0 ; k < (int)( sizeof( hn )/sizeof( hn[0] ) ) ; k++ ) for( i = 0 ; i < nops ; i++ ) if( !strcmp( ops[i].name , hn[k] ) ) set[ nset++ ] = i ;
  attach_GLU( ) ; mcomp_config( 1 , POL_RR ) ; mcenv_membytes = plenty ;
  size_t *sh ; const int ns = fx_few_shapes( &sh , mc_thorough( ) ? 1 : 0 ) ;
  for( s = 0 ; s < ns ; s++ ) for( i = 0 ; i < nops ; i++ ) {
    if( ( ops[i].flags & OPF_FFT ) && !op_fftw ) continue ;
    if( NC > 3 && ( ops[i].flags & OPF_SLOW ) && s > 0 && !mc_thorough( ) ) continue ;
    const int mem = ops[i].flags & OPF_MEM ;
    if( !mem && s > 0 ) continue ;
    char n[ 100 ] = "" ; int l = 0 , mu ; for( mu = 0 ; mu < ND ; mu++ ) l += sprintf( n + l , "%s%zu" , mu ? "x" : "" , sh[ s*ND + mu ] ) ;
    if( mc_begin( "answers %s %s" , ops[i].name , n ) ) {
      mcomp_config( s%2 ? 3 : 1 , POL_RR ) ;
      fx_dims( sh + s*ND ) ;
      grid( &ops[i] , F_MED , mem ? ( NC > 3 && ( ops[i].flags & OPF_SLOW ) ? 1 : 4 ) : 1 ) ;
      fx_undims( ) ; mc_end( ) ;
    }
  }
  if( NC < 4 || mc_thorough( ) )
  for( k = 0 ; k < nset ; k++ ) if( mc_begin( "histories of 2 starting with %s" , ops[ set[k] ].name ) ) {
    fx_dims( sh ) ; histories( set , nset , 2 , set[k] ) ; fx_undims( ) ; mc_end( ) ;
  }
  if( mc_thorough( ) ) for( k = 0 ; k < nset ; k++ ) if( mc_begin( "histories of 3 starting with %s" , ops[ set[k] ].name ) ) {
    fx_dims( sh ) ; histories( set , nset , 3 , set[k] ) ; fx_undims( ) ; mc_end( ) ;
  }
  free( sh ) ;
  return mc_finish( ) ;
}
