/* C01: thread counts, interleavings and conflicts of every operation */
#include "fx.h"
#include "mc.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "mcomp.h"
#include "mcenv.h"
#include "fmt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static struct op ops[ OP_MAX ] ;
struct plan { int threads ; mcomp_policy pol ; int hb , ex ; struct mcomp_dev dev[ 2 ] ; int ndev ; } ;
static struct mcomp_confset *conf ;
static unsigned char *alts ; static uintptr_t *ptpc ;
static void setup( void *v )
{
  struct plan *p = v ;
  mcomp_config( p->threads , p->pol ) ;
  /* the number of threads is looked at when the lattice is initialised */
  size_t d[ ND ] ; int m ; for( m = 0 ; m < ND ; m++ ) d[m] = Latt.dims[m] ;
  fx_dims( d ) ;
  mcomp_conf = conf ;
  if( p->hb ) mcomp_hb( 1 ) ;
  if( p->ex ) { mcomp_ptalts = alts ; mcomp_ptpc = ptpc ; mcomp_explore( conf , p->dev , p->ndev ) ; }
}
static int run( const struct op *o , const cplx *U , struct opout *r , struct plan *p , const char *what )
{
  int sig = 0 ;
  mc_progress( "%s" , what ) ;
  const int s = op_fork( o , U , r , 120 , setup , p , &sig ) ;
  mc_schedules( 1 ) ; mc_trans( r->points ) ;
  if( s == 0 ) { mc_traces( 1 ) ; mc_states( r->regions ) ; mc_distinct( mc_hash( &r->trace , sizeof( r->trace ) , p->threads + 100*p->pol ) ) ; return 0 ; }
  if( s == 1 ) mc_fail( "crash" , "%s: killed by signal %d with %s" , o->name , sig , what ) ;
  else if( s == 2 ) mc_fail( "hang" , "%s: does not end with %s" , o->name , what ) ;
  else if( s == 3 ) mc_fail( "deadlock" , "%s: deadlock with %s" , o->name , what ) ;
  else mc_fail( "exit" , "%s: exits with %d with %s" , o->name , sig , what ) ;
  return 1 ;
}
/* reads a file of each format */
static fmt_t fm[ 64 ] ; static int nfm ;
static int r_read( struct site *lat , const struct op *o )
{
  size_t n , off , len ; cplx *u = fx_get( lat ) ; unsigned char *b = fmt_encode( fm[ o->a ] , u , 12 , &n , &off , &len ) ;
  struct head_data H ; memset( &H , 0 , sizeof( H ) ) ; int s = 0 ;
  fmt_spit( "in.cfg" , b , n ) ; free( b ) ; Latt.head = fm[ o->a ].head ;
  struct site *r = read_file( &H , "in.cfg" ) ; unlink( "in.cfg" ) ;
  if( r == NULL ) s = -4 ; else { const double d = fx_distlat( r , u ) ; op_ob( d > 1e-3 ) ; if( d > 1e-3 ) s = -5 ; op_ob( H.checksum ) ; free_lat( r ) ; }
  free( u ) ; return s ;
}
/* gauge fixing that converges */
static int (*r_gf_hard)( struct site * , const struct op * ) ;
static int r_gf_easy( struct site *lat , const struct op *o ) { op_easy = 1 ; const int s = r_gf_hard( lat , o ) ; op_easy = 0 ; return s ; }
static int more( struct op *ops , int n )
{
  int i , m = n ;
  for( i = 0 ; i < n ; i++ ) if( !strcmp( ops[i].name , "coulomb" ) || !strcmp( ops[i].name , "coulomb-residual" ) || !strcmp( ops[i].name , "landau" ) ) {
    ops[m] = ops[i] ; r_gf_hard = ops[i].run ; ops[m].run = r_gf_easy ; ops[m].flags |= OPF_SLOW ; strcat( ops[m].name , "-converged" ) ; m++ ;
  }
  nfm = fmt_all( fm ) ;
  for( i = 0 ; i < nfm ; i++ ) { memset( ops + m , 0 , sizeof( ops[m] ) ) ; sprintf( ops[m].name , "read-%s" , fmt_name( fm[i] ) ) ; ops[m].flags = OPF_IO|OPF_MEM|OPF_SLOW ; ops[m].run = r_read ; ops[m].a = i ; m++ ; }
  return m ;
}
/* the builds with another gauge fixing routine run nothing but gauge fixing */
#if defined GLU_GFIX_SD || defined OVERRELAXED_GF
#define ONLYGF 1
#else
#define ONLYGF 0
#endif
static const char *polname[] = { "round-robin" , "lowest-first" , "highest-first" , "reverse" } ;

/* the generic-NC build repeats what the NC=3 one does, with slow matrix functions */
static int light( const struct op *o ) { return NC > 3 && ( o->flags & OPF_SLOW ) && !mc_thorough( ) ; }
static void check( const struct op *o , int kind , const int *threads , int nthr )
{
  cplx *U = fx_field( kind , 5 ) ;
  struct opout *ref = op_new( ) , *r = op_new( ) , *ref2 = op_new( ) ;
  conf = mc_shared( sizeof( *conf ) ) ; alts = mc_shared( MCOMP_MAXPTS ) ; ptpc = mc_shared( sizeof( uintptr_t )*MCOMP_MAXPTS ) ;
  struct plan p ; memset( &p , 0 , sizeof( p ) ) ; p.threads = 1 ; char w[ 128 ] ; int t , q ; const char *d ;
  const double tol = op_tol( o ) ;
  if( run( o , U , ref , &p , "1 thread" ) ) return ;
  if( ref->over ) mc_cap( "%s: more output than recorded" , o->name ) ;
  for( t = 0 ; t < ( light( o ) ? 1 : nthr ) && !mc_nfail() ; t++ ) {
    memset( conf , 0 , sizeof( *conf ) ) ;
    for( q = 0 ; q < ( light( o ) || threads[t] > 5 ? 1 : 4 ) && !mc_nfail() ; q++ ) {
      p.threads = threads[t] ; p.pol = q ; p.hb = 1 ; p.ex = 0 ;
      sprintf( w , "%d threads, %s" , p.threads , polname[q] ) ;
      if( run( o , U , r , &p , w ) ) break ;
      if( q == 0 ) memcpy( ref2 , r , sizeof( *r ) ) ;
      /* random updates repeat for one seed and one number of threads */
      d = op_diff( ( o->flags & OPF_RNG ) ? ref2 : ref , r , tol , 0 ) ;
      if( d[0] ) mc_fail( "threads" , "%s: %s gives another result than %s: %s" , o->name , w , ( o->flags & OPF_RNG ) ? "round-robin" : "1 thread" , d ) ;
    }
    if( mc_nfail() ) break ;
    if( conf->overflow ) mc_cap( "%s: more than %d conflicting pairs" , o->name , MCOMP_MAXCONF ) ;
    if( t == 0 && conf->n ) mc_sample( "%d conflicting pairs with %d threads, first %lx/%lx" , conf->n , threads[t] , (long)conf->c[0].pc1 , (long)conf->c[0].pc2 ) ;
    if( threads[t] > ( mc_thorough() ? 3 : 2 ) ) continue ;
    /* every single preemption at a synchronisation or conflict */
    struct mcomp_confset *keep = mc_shared( sizeof( *keep ) ) ; memcpy( keep , conf , sizeof( *keep ) ) ;
    long k , n ; int a ; const long cap = mc_thorough() ? 4000 : light( o ) ? 12 : o->flags & OPF_SLOW ? 80 : 150 ;
    p.pol = POL_LOW ; p.hb = 0 ; p.ex = 1 ; p.ndev = 0 ; sprintf( w , "%d threads, no preemption" , p.threads ) ;
    if( run( o , U , ref2 , &p , w ) ) break ;
    n = ref2->points < MCOMP_MAXPTS ? ref2->points : MCOMP_MAXPTS ;
    unsigned char *al = malloc( n + 1 ) ; memcpy( al , alts , n ) ;
    if( n > cap ) {
      /* all points of a place that is reached rarely, the first ones of the others */
      long j , left = n , lim = 4096 , cnt ; uintptr_t *pl = malloc( n*sizeof( uintptr_t ) ) ; int npl = 0 , *seen = calloc( n , sizeof( int ) ) ;
      long *ord = malloc( n*sizeof( long ) ) ;
      for( j = 0 ; j < n ; j++ ) { int h ; for( h = 0 ; h < npl && pl[h] != ptpc[j] ; h++ ) ; if( h == npl ) pl[npl++] = ptpc[j] ; ord[j] = seen[h]++ ; }
      do { lim = lim*3/4 ; for( cnt = j = 0 ; j < n ; j++ ) cnt += ord[j] < lim ; } while( cnt > cap && lim > 2 ) ;
      for( left = j = 0 ; j < n ; j++ ) { if( ord[j] >= lim ) al[j] = 0 ; else left++ ; }
      mc_cap( "%s: %ld of %ld scheduling points preempted, the first %ld of each of %d places" , o->name , left , n , lim , npl ) ;
      free( pl ) ; free( seen ) ; free( ord ) ;
    }
    if( t == 0 ) mc_sample( "%ld scheduling points" , n ) ;
    const char *dbg = getenv( "C01_POINT" ) ; if( dbg ) { k = atol( dbg ) ; fprintf( stderr , "point %ld pc %lx\n" , k , (long)ptpc[k] ) ; }
    for( k = dbg ? atol( dbg ) : 0 ; k < n && !mc_nfail() ; k++ ) for( a = 0 ; a < al[k] && !mc_nfail() ; a++ ) {
      p.dev[0].point = k ; p.dev[0].target = a ; p.ndev = 1 ;
      sprintf( w , "%d threads, thread switched away at point %ld to %d" , p.threads , k , a ) ;
      if( run( o , U , r , &p , w ) ) break ;
      d = op_diff( ref2 , r , tol , 0 ) ;
      if( d[0] && dbg ) { int f ; for( f = 0 ; f < r->nfiles ; f++ ) { FILE *o1 = fopen( "/tmp/a.bin" , "wb" ) , *o2 = fopen( "/tmp/b.bin" , "wb" ) ; fwrite( ref2->bytes + ref2->file[f].off , 1 , ref2->file[f].n , o1 ) ; fwrite( r->bytes + r->file[f].off , 1 , r->file[f].n , o2 ) ; fclose( o1 ) ; fclose( o2 ) ; } }
      if( d[0] ) mc_fail( "interleaving" , "%s: %s gives another result: %s" , o->name , w , d ) ;
    }
    free( al ) ;
  }
  free( U ) ;
}

int main( int argc , char **argv )
{
  mc_init( argc , argv , "C01" , "c01_schedules" ) ;
  mc_timeout( 600 ) ;
  const int n = more( ops , ops_all( ops ) ) ; int i , s , m ;
  static const int thr[] = { 2 , 3 , 5 , 17 } ;
  size_t sh[ 4 ][ ND ] ;
  for( m = 0 ; m < ND ; m++ ) { sh[2][m] = 2 ; sh[3][m] = 3 ; sh[0][m] = 2 ; sh[1][m] = m == 1 ? 4 : 2 ; }
  sh[0][ND-1] = 4 ;
  attach_GLU( ) ; mcomp_config( 1 , POL_RR ) ; mcenv_membytes = 1LL << 40 ;
  for( s = 0 ; s < ( mc_thorough() ? 2 : 1 ) ; s++ ) for( i = 0 ; i < n ; i++ ) {
    if( ( ops[i].flags & OPF_FFT ) && !op_fftw ) continue ;
    if( ONLYGF && strncmp( ops[i].name , "landau" , 6 ) && strncmp( ops[i].name , "coulomb" , 7 ) ) continue ;
#ifdef OVERRELAXED_GF
    ops[i].flags |= OPF_RNG ; /* it decides by random numbers which sites to overrelax */
#endif
    int mem ;
    for( mem = 0 ; mem < ( ( ops[i].flags & OPF_MEM ) && !light( &ops[i] ) ? 2 : 1 ) ; mem++ )
    if( mc_begin( "%s %s%s" , ops[i].name , s ? "2x4x2" : "2x2x4" , mem ? " little memory" : "" ) ) {
      fx_dims( light( &ops[i] ) ? sh[2] : sh[s] ) ;
      if( mem ) mcenv_membytes = 1 ;
      check( &ops[i] , F_MED , thr , 4 ) ;
      fx_undims( ) ;
      mc_end( ) ;
    }
  }
  /* a lattice with momenta that close to triangles */
  for( i = 0 ; i < n ; i++ ) if( !ONLYGF && op_fftw && !strncmp( ops[i].name , "cut-nonexc" , 10 ) && mc_begin( "%s 3x3x3" , ops[i].name ) ) {
    struct op o = ops[i] ; o.flags |= OPF_SLOW ; fx_dims( sh[3] ) ; check( &o , F_MED , thr , 3 ) ; fx_undims( ) ; mc_end( ) ;
  }
  return mc_finish( ) ;
}
