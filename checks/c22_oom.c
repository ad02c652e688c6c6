#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#define _GNU_SOURCE
/* C22: a refused memory request or output file is reported; no crash, no wrong result */
#include "fx.h"
#include "mc.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <dlfcn.h>

static struct op ops[ OP_MAX ] ; static int nops ;
struct shot { long long mem ; long alloc , open ; unsigned long *chain ; } ;
#define MAXREQ 3000000

static void setup( void *v )
{
  const struct shot *s = v ; mcenv_membytes = s->mem ; op_inject = 1 ; mcenv_failat = s->alloc ; mcenv_fopen_failat = s->open ; mcenv_chain = s->chain ; mcenv_chainmax = MAXREQ ;
}
/* the function that made the request */
static const char *who( unsigned long pc )
{
  static char b[ 300 ] ; Dl_info d ; char cmd[ 700 ] , ex[ 400 ] ; ssize_t n = readlink( "/proc/self/exe" , ex , sizeof( ex ) - 1 ) ;
  b[0] = 0 ; if( n <= 0 || !pc || !dladdr( (void*)pc , &d ) ) return "?" ;
  ex[n] = 0 ; snprintf( cmd , sizeof( cmd ) , "addr2line -f -e %s 0x%lx 2>/dev/null" , ex , pc - 1 - (unsigned long)d.dli_fbase ) ;
  FILE *f = popen( cmd , "r" ) ; if( f ) { if( !fgets( b , sizeof( b ) - 1 , f ) ) b[0] = 0 ; pclose( f ) ; }
  b[ strcspn( b , "\n" ) ] = 0 ; return b[0] ? b : "?" ;
}
static int failed( const struct opout *r ) { return r->status < 0 ; }
static void every( const struct op *o , int kind , long long mem )
{
  cplx *U = fx_field( kind , 9 ) ; struct opout *ref = op_new( ) , *r = op_new( ) ; int sig , nrep = 0 , nok = 0 ; long k ; char w[ 200 ] ;
  struct shot sh = { mem , -1 , -1 , mc_shared( MAXREQ*sizeof( unsigned long ) ) } ;
  if( getenv( "MC_DIRECT" ) ) { sh.alloc = atol( getenv( "MC_DIRECT" ) ) ; if( sh.alloc < 0 ) { sh.open = -1 - sh.alloc ; sh.alloc = -1 ; } sh.chain = NULL ; setup( &sh ) ; op_run( o , U , ref ) ; printf( "status %d\n" , ref->status ) ; exit( 0 ) ; }
  int s = op_fork( o , U , ref , 60 , setup , &sh , &sig ) ; mc_traces( 1 ) ;
  if( s ) { mc_fail( "reference" , "%s: fails (%d,%d) with nothing refused" , o->name , s , sig ) ; return ; }
  const long n = ref->allocs , nf = ref->fopens ;
  const unsigned long *ch = sh.chain ; sh.chain = NULL ; long nskip = 0 ;
  if( n > MAXREQ ) { mc_cap( "%s: more than %d requests" , o->name , MAXREQ ) ; return ; }
  for( k = 0 ; k < n + nf ; k++ ) {
    /* of the requests made from one place, the quick tier refuses the first two and the last; the thorough one all of them unless there are very many (then only the first) */
    if( k < n && ( n > 5000 || !mc_thorough( ) ) ) { long j , before = 0 , after = 0 ; const long first = n > 100000 ? 1 : 2 ; for( j = 0 ; j < k && before < first ; j++ ) before += ch[j] == ch[k] ; for( j = k+1 ; j < n && !after && before >= first ; j++ ) after += ch[j] == ch[k] ; if( before >= first && ( after || first == 1 ) ) { nskip++ ; continue ; } }
    sh.alloc = k < n ? k : -1 ; sh.open = k < n ? -1 : k - n ; r->failed = 0 ;
    snprintf( w , sizeof( w ) , "%s %ld of %ld refused" , k < n ? "request" : "output file" , k < n ? k : k - n , k < n ? n : nf ) ; mc_progress( "%s" , w ) ;
    s = op_fork( o , U , r , 15 , setup , &sh , &sig ) ; mc_traces( 1 ) ; mc_states( 1 ) ; mc_trans( 1 ) ;
    if( s == 0 && !r->failed ) mc_fail( "replay" , "%s: %s: never made" , o->name , w ) ;
    /* ended with a failure status */
    if( s == 4 && sig > 0 ) { nrep++ ; continue ; }
    if( s ) { mc_fail( s == 1 ? "crash" : s == 2 ? "hang" : s == 3 ? "deadlock" : "exit" , "%s: %s (in %s): %s (%d)" , o->name , w , who( r->failpc ) , s == 1 ? "crashes" : s == 2 ? "hangs" : s == 3 ? "threads wait for each other forever" : "ends the process" , sig ) ; continue ; }
    if( failed( r ) ) { nrep++ ; continue ; }
    const char *d = op_diff( ref , r , op_tol( o ) , 0 ) ;
    if( d[0] ) mc_fail( "silent" , "%s: %s (in %s): reports success, but %s" , o->name , w , who( r->failpc ) , d ) ;
    else nok++ ;
    mc_distinct( mc_hash( o->name , strlen( o->name ) , k ) ) ;
  }
  if( n + nf ) mc_sample( "%s: %ld requests and %ld files, %d reported as failure, %d finished correctly, %ld like others" , o->name , n , nf , nrep , nok , nskip ) ;
  free( U ) ;
}
int main( int argc , char **argv )
{
  size_t *sh ; int ns , i , k , T ;
  mc_init( argc , argv , "C22" , "oom" ) ; mc_timeout( 600 ) ;
  attach_GLU( ) ;
  op_easy = 1 ; nops = ops_all( ops ) ;
  static const size_t L4[] = { 2 , 2 , 2 , 4 } , L5[] = { 2 , 2 , 2 , 2 , 2 } , L3[] = { 2 , 2 , 4 } ;
  const size_t *d = ND == 4 ? L4 : ND == 3 ? L3 : L5 ; (void)sh ; (void)ns ; (void)i ;
  for( k = 0 ; k < nops ; k++ ) for( T = 1 ; T <= 2 ; T++ ) {
    const struct op *o = &ops[k] ; int m ;
    if( ( o->flags & OPF_FFT ) && !op_fftw ) continue ;
    if( T == 1 && !mc_thorough( ) ) continue ;
    for( m = 0 ; m < ( o->flags & OPF_MEM ? 2 : 1 ) ; m++ )
      if( mc_begin( "%s threads=%d memory=%s" , o->name , T , m ? "scarce" : "plenty" ) ) {
	mcomp_config( T , POL_RR ) ; fx_dims( d ) ;
	every( o , F_MED , m ? 1 : 1LL << 40 ) ;
	mc_end( ) ;
      }
  }
  return mc_finish( ) ;
}
