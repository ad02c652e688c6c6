#define _GNU_SOURCE
#include "ops.h"
#include "mc.h"
#include "mcomp.h"
#include "mcenv.h"
#include "init.h"
#include "GLU_malloc.h"
#include "GLUlib_wrap.h"
#include "SM_wrap.h"
#include "GF_wrap.h"
#include "OBS_wrap.h"
#include "CUT_wrap.h"
#include "plaqs_links.h"
#include "POLY.h"
#include "clover.h"
#include "wflow.h"
#include "smear.h"
#include "MAG.h"
#include "gtrans.h"
#include "gftests.h"
#include "random_config.h"
#include "BPST_config.h"
#include "SUNCxU1_config.h"
#include "KPHB.h"
#include "hb.h"
#include "relax.h"
#include "par_rng.h"
#include "draughtboard.h"
#include "Qmoments.h"
#include <stdio.h>
#include <strings.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <ctype.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>

#ifdef HAVE_FFTW3_H
int op_fftw = 1 ;
#else
int op_fftw = 0 ;
#endif
double op_alpha = 0.6 , op_beta = 0 ;
static struct opout *cur ;
void op_ob( double x ) { if( cur->nobs < OP_MAXOBS ) cur->obs[ cur->nobs++ ] = x ; else cur->over = 1 ; }

int op_easy , op_nolinks , op_inject ;
/* what the harness itself allocates is never refused */
static inline void *h_malloc( size_t n ) { const int c = mcenv_counting ; mcenv_counting = 0 ; void *p = malloc( n ) ; mcenv_counting = c ; return p ; }
static inline void *h_calloc( size_t a , size_t b ) { const int c = mcenv_counting ; mcenv_counting = 0 ; void *p = calloc( a , b ) ; mcenv_counting = c ; return p ; }
static inline int h_pm( void **p , size_t a , size_t b ) { const int c = mcenv_counting ; mcenv_counting = 0 ; int r = posix_memalign( p , a , b ) ; mcenv_counting = c ; return r ; }
static inline cplx *h_gfield( int k , int s ) { const int c = mcenv_counting ; mcenv_counting = 0 ; cplx *p = fx_gfield( k , s ) ; mcenv_counting = c ; return p ; }
static inline cplx *h_get( struct site *l ) { const int c = mcenv_counting ; mcenv_counting = 0 ; cplx *p = fx_get( l ) ; mcenv_counting = c ; return p ; }
static inline double h_distlat( struct site *l , const cplx *u ) { const int c = mcenv_counting ; mcenv_counting = 0 ; double d = fx_distlat( l , u ) ; mcenv_counting = c ; return d ; }
#define fx_distlat h_distlat
#define malloc h_malloc
#define calloc h_calloc
#define posix_memalign h_pm
#define fx_gfield h_gfield
#define fx_get h_get
long op_numbers( const char *t , double *out , long max )
{
  long n = 0 ; int bol = 1 ;
  while( *t && n < max ) {
    if( bol ) { const char *e = strchr( t , '\n' ) ; size_t l = e ? (size_t)( e - t ) : strlen( t ) ; if( memmem( t , l , "Page size" , 9 ) || memmem( t , l , "Avail ::" , 8 ) ) { t += l ; if( *t ) t++ ; continue ; } }
    bol = *t == '\n' ;
    /* the average link is not gauge invariant */
    if( op_nolinks && ( !strncasecmp( t , "link trace" , 10 ) || !strncasecmp( t , "link-trace" , 10 ) ) ) { while( *t && *t != '\n' && !isdigit( (unsigned char)*t ) ) t++ ; while( *t && ( isdigit( (unsigned char)*t ) || strchr( ".eE+-" , *t ) ) ) t++ ; continue ; }
    if( !strncmp( t , "[TIMER" , 6 ) || !strncmp( t , "[TIME" , 5 ) || !strncmp( t , "[INIT] using" , 12 ) ) { while( *t && *t != '\n' ) t++ ; continue ; }
    if( isdigit( (unsigned char)*t ) || ( ( *t == '-' || *t == '+' ) && ( isdigit( (unsigned char)t[1] ) || !strncmp( t+1 , "nan" , 3 ) || !strncmp( t+1 , "inf" , 3 ) ) ) ||
	( ( !strncmp( t , "nan" , 3 ) || !strncmp( t , "inf" , 3 ) ) && !isalpha( (unsigned char)t[3] ) ) ) {
      char *e ; out[n++] = strtod( t , &e ) ; if( e == t ) e++ ; t = e ; continue ;
    }
    if( isalpha( (unsigned char)*t ) || *t == '_' ) { while( isalpha( (unsigned char)*t ) || *t == '_' ) t++ ; continue ; }
    t++ ;
  }
  return n ;
}
static void collect( void )
{
  DIR *d = opendir( "." ) ; struct dirent *e ; int i , j ;
  char names[ 40 ][ 96 ] ; int n = 0 ;
  while( d && ( e = readdir( d ) ) ) if( e->d_name[0] != '.' ) { if( n < 40 && strlen( e->d_name ) < 96 ) strcpy( names[ n++ ] , e->d_name ) ; else cur->over = 1 ; }
  if( d ) closedir( d ) ;
  for( i = 0 ; i < n ; i++ ) for( j = i+1 ; j < n ; j++ ) if( strcmp( names[i] , names[j] ) > 0 ) { char t[ 96 ] ; strcpy( t , names[i] ) ; strcpy( names[i] , names[j] ) ; strcpy( names[j] , t ) ; }
  for( i = 0 ; i < n ; i++ ) {
    FILE *f = fopen( names[i] , "rb" ) ; if( !f ) continue ;
    strcpy( cur->file[i].name , names[i] ) ; cur->file[i].off = cur->nbytes ;
    size_t r = fread( cur->bytes + cur->nbytes , 1 , OP_MAXBYTES - cur->nbytes , f ) ;
    cur->file[i].n = r ; cur->nbytes += r ; if( cur->nbytes >= OP_MAXBYTES ) cur->over = 1 ;
    fclose( f ) ; cur->nfiles = i + 1 ;
  }
}
/* lines of different threads come in any order */
static int linecmp( const void *a , const void *b ) { return strcmp( *(char*const*)a , *(char*const*)b ) ; }
static char *sorted( char *t )
{
  long n = 0 , i , o = 0 ; char *p , **l = malloc( ( strlen( t ) + 1 )*sizeof( char* ) ) , *u = malloc( 2*strlen( t ) + 2 ) ;
  for( p = strtok( t , "\n" ) ; p ; p = strtok( NULL , "\n" ) ) l[n++] = p ;
  qsort( l , n , sizeof( char* ) , linecmp ) ;
  for( i = 0 ; i < n ; i++ ) o += sprintf( u + o , "%s\n" , l[i] ) ;
  u[o] = 0 ; free( l ) ; free( t ) ; return u ;
}
static int opdir = 0 ;
/* leaves nothing useful on the stack */
static __attribute__((noinline)) void stale( void ) { volatile uint64_t w[ 4096 ] ; int i ; for( i = 0 ; i < 4096 ; i++ ) w[i] = mcenv_pattern*0x0101010101010101ULL ; }
void op_run( const struct op *o , const cplx *U , struct opout *r )
{
  char dir[ 400 ] , cwd[ 400 ] ; size_t len ; double un ;
  cur = r ;
  r->done = r->status = r->nfiles = r->havefield = r->over = 0 ; r->nobs = 0 ; r->nbytes = 0 ;
  if( !getcwd( cwd , sizeof( cwd ) ) ) cwd[0] = 0 ;
  snprintf( dir , sizeof( dir ) , "%s/op%d.%d" , mc_scratch() , (int)getpid() , opdir++ ) ;
  mkdir( dir , 0700 ) ; if( chdir( dir ) ) abort( ) ;
  memset( &mcomp_stats , 0 , sizeof( mcomp_stats ) ) ; mcenv_probes = 0 ;
  struct site *lat = fx_lat( U ) ;
  mc_capture() ;
  mcenv_allocs = mcenv_fopens = 0 ; mcenv_failed = 0 ; r->failpc = 0 ; mcenv_failpc = &r->failpc ; mcenv_counting = op_inject ;
  stale( ) ; r->status = o->run( lat , o ) ;
  mcenv_counting = 0 ; r->allocs = mcenv_allocs ; r->fopens = mcenv_fopens ; r->failed = mcenv_failed ;
  char *t = mc_captured( &len ) ;
  if( o->flags & OPF_IO ) t = sorted( t ) ;
  long m = op_numbers( t , r->obs + r->nobs , OP_MAXOBS - r->nobs ) ; r->nobs += m ; if( r->nobs >= OP_MAXOBS ) r->over = 1 ;
  free( t ) ;
  collect() ;
  if( ( o->flags & OPF_FIELD ) && fxV*ND*NN <= OP_MAXFIELD ) {
    cplx *f = fx_get( lat ) ; memcpy( r->field , f , fxV*ND*NN*sizeof( cplx ) ) ; free( f ) ; r->havefield = 1 ;
    un = fx_unitarity( lat ) ; r->unit = un ;
  }
  free_lat( lat ) ;
  r->points = mcomp_stats.points ; r->regions = mcomp_stats.regions ; r->accesses = mcomp_stats.accesses ; r->switches = mcomp_stats.switches ; r->trace = mcomp_stats.trace ; r->probes = mcenv_probes ;
  if( cwd[0] && chdir( cwd ) ) { }
  r->done = 1 ;
}
static void dead( const char *m ) { (void)m ; _exit( 88 ) ; }
int op_fork( const struct op *o , const cplx *U , struct opout *r , int limit , void (*setup)( void * ) , void *arg , int *sig )
{
  int st ; r->done = 0 ;
  mc_scratch( ) ;
  fflush( NULL ) ;
  pid_t p = fork( ) ;
  if( p < 0 ) abort( ) ;
  if( p == 0 ) {
    mcomp_on_deadlock = dead ;
    alarm( limit ) ;
    if( setup ) setup( arg ) ;
    op_run( o , U , r ) ;
    fflush( NULL ) ; _exit( 0 ) ;
  }
  while( waitpid( p , &st , 0 ) < 0 ) { }
  /* what it left behind */
  { char dir[ 400 ] , b[ 700 ] ; int k ; for( k = opdir ; k < opdir + 1 ; k++ ) { snprintf( dir , sizeof( dir ) , "%s/op%d.%d" , mc_scratch() , (int)p , k ) ; DIR *d = opendir( dir ) ; struct dirent *e ; while( d && ( e = readdir( d ) ) ) if( strcmp( e->d_name , "." ) && strcmp( e->d_name , ".." ) ) { snprintf( b , sizeof( b ) , "%s/%s" , dir , e->d_name ) ; unlink( b ) ; } if( d ) closedir( d ) ; rmdir( dir ) ; } }
  if( WIFSIGNALED( st ) ) { if( sig ) *sig = WTERMSIG( st ) ; return WTERMSIG( st ) == SIGALRM ? 2 : 1 ; }
  if( WEXITSTATUS( st ) == 88 ) return 3 ;
  if( WEXITSTATUS( st ) == 77 ) { if( sig ) *sig = 77 ; return 1 ; }
  if( WEXITSTATUS( st ) || !r->done ) { if( sig ) *sig = WEXITSTATUS( st ) ; return 4 ; }
  return 0 ;
}
struct opout *op_new( void ) { return mc_shared( sizeof( struct opout ) ) ; }
static double be( const unsigned char *p ) { uint64_t v = 0 ; int i ; double d ; for( i = 0 ; i < 8 ; i++ ) v = ( v << 8 ) | p[i] ; memcpy( &d , &v , 8 ) ; return d ; }
static int dclose( double a , double b , double tol )
{
  if( isnan( a ) && isnan( b ) ) return 1 ;
  if( isinf( a ) || isinf( b ) ) return a == b ;
  double m = fabs( a ) > fabs( b ) ? fabs( a ) : fabs( b ) ;
  return fabs( a - b ) <= tol*( 1 + m ) && !( isnan( a ) || isnan( b ) ) && m < 1e100 ;
}
int op_files_close( const unsigned char *a , size_t na , const unsigned char *b , size_t nb , double tol )
{
  size_t i , w ;
  if( na != nb ) return 0 ;
  if( !memcmp( a , b , na ) ) return 1 ;
  w = na/4 ;
  for( i = 0 ; i < w ; i++ ) {
    if( !memcmp( a + 4*i , b + 4*i , 4 ) ) continue ;
    /* high half, or low half of a double that began at the word before */
    if( i + 1 < w && dclose( be( a + 4*i ) , be( b + 4*i ) , tol ) ) { i++ ; continue ; }
    if( i > 0 && dclose( be( a + 4*i - 4 ) , be( b + 4*i - 4 ) , tol ) ) continue ;
    return 0 ;
  }
  return !memcmp( a + 4*w , b + 4*w , na - 4*w ) ;
}
const char *op_diff( const struct opout *a , const struct opout *b , double tol , int nofiles )
{
  static char m[ 400 ] ; long i ; int k ;
  if( a->status != b->status ) { sprintf( m , "status %d against %d" , a->status , b->status ) ; return m ; }
  if( a->nobs != b->nobs ) { sprintf( m , "%ld numbers reported against %ld" , a->nobs , b->nobs ) ; return m ; }
  for( i = 0 ; i < a->nobs ; i++ ) if( !dclose( a->obs[i] , b->obs[i] , tol ) ) { sprintf( m , "reported number %ld is %.12g against %.12g" , i , a->obs[i] , b->obs[i] ) ; return m ; }
  if( a->havefield != b->havefield ) return "field missing" ;
  if( a->havefield ) for( i = 0 ; i < (long)( fxV*ND*NN ) ; i++ ) { double d = cabs( a->field[i] - b->field[i] ) ; if( !( d <= tol ) && !( isnan( creal( a->field[i] ) ) && isnan( creal( b->field[i] ) ) ) ) { sprintf( m , "link element %ld (site %ld direction %ld) differs by %g" , i , i/( ND*NN ) , ( i/NN )%ND , d ) ; return m ; } }
  if( nofiles ) return "" ;
  if( a->nfiles != b->nfiles ) { sprintf( m , "%d files written against %d" , a->nfiles , b->nfiles ) ; return m ; }
  for( k = 0 ; k < a->nfiles ; k++ ) {
    if( strcmp( a->file[k].name , b->file[k].name ) ) { snprintf( m , 300 , "file %s against %s" , a->file[k].name , b->file[k].name ) ; return m ; }
    if( !op_files_close( a->bytes + a->file[k].off , a->file[k].n , b->bytes + b->file[k].off , b->file[k].n , tol ) ) { snprintf( m , 300 , "content of file %s differs" , a->file[k].name ) ; return m ; }
  }
  return "" ;
}
double op_tol( const struct op *o ) { return o->flags & OPF_ITER ? 2e-6 : 2e-9 ; }

/* ------------------------------------------------------------ the operations */
static void params( void )
{
  int i ;
  for( i = 0 ; i < ND-1 ; i++ ) Latt.sm_alpha[i] = op_alpha - 0.1*i ;
  Latt.gf_alpha = 0.08 ; Latt.Seed[0] = 4321 ; Latt.flow = 7 ; Latt.head = NERSC_HEADER ;
}
/* a: smearing type, b: directions, c: iterations, d: step in thousandths (0: default) */
static int r_smear( struct site *lat , const struct op *o )
{
  struct sm_info S ; memset( &S , 0 , sizeof( S ) ) ; S.type = o->a ; S.dir = o->b ; S.smiters = o->c ;
  params( ) ; if( o->d ) Latt.sm_alpha[0] = o->d*1e-3 ;
  return SM_wrap_struct( lat , S ) ;
}
static int r_flowback( struct site *lat , const struct op *o )
{ params( ) ; Latt.sm_alpha[0] = 0.02 ; return flow_RK3( lat , 2 , GLU_BACKWARD , o->a , o->b ) ; }
static int r_gf( struct site *lat , const struct op *o )
{
  struct gf_info G ; memset( &G , 0 , sizeof( G ) ) ; G.type = o->a ; G.max_iters = o->b ; G.accuracy = pow( 10.0 , -o->c ) ;
  if( op_easy && !o->d ) { G.max_iters = 2000 ; G.accuracy = 1E-6 ; }
  params( ) ;
  /* a random restart reads the configuration again */
  Latt.head = HIREP_HEADER ; if( o->d && write_configuration( lat , "in.cfg" , OUTPUT_HIREP , "x" ) == GLU_FAILURE ) return -9 ;
  const int s = GF_wrap( "in.cfg" , lat , G ) ;
  if( o->d ) unlink( "in.cfg" ) ;
  return s ;
}
static int o_gtrans( struct site *lat , const struct op *o )
{
  cplx *g = fx_gfield( F_HOT , 77 ) ; GLU_complex **G = malloc( fxV*sizeof( GLU_complex* ) ) ; size_t i ; int k ;
  for( i = 0 ; i < fxV ; i++ ) { G[i] = NULL ; if( posix_memalign( (void**)&G[i] , 16 , NN*sizeof( GLU_complex ) ) ) abort( ) ; for( k = 0 ; k < NN ; k++ ) G[i][k] = g[ i*NN + k ] ; }
  params( ) ;
  if( o->a == 0 ) gtransform( lat , (const GLU_complex**)G ) ;
  else if( o->a == 1 ) {
    size_t t ; for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) { const size_t u = ( t + 1 ) % Latt.dims[ND-1] ; gtransform_slice( (const GLU_complex**)G + Latt.Lcu*t , lat , (const GLU_complex**)G + Latt.Lcu*u , t ) ; }
  } else latt_reunitg( G ) ;
  op_ob( gauge_test( (const GLU_complex**)G ) ) ;
  for( i = 0 ; i < fxV ; i++ ) free( G[i] ) ;
  free( G ) ; free( g ) ; return 0 ;
}
static int r_random( struct site *lat , const struct op *o )
{
  params( ) ;
  switch( o->a ) { case 0 : random_gtrans( lat ) ; break ; case 1 : random_suNC( lat ) ; break ; case 2 : trivial( lat ) ; break ; case 3 : latt_reunitU( lat ) ; break ; default : return instanton_config( lat ) ; }
  return 0 ;
}
static int r_sweep( struct site *lat , const struct op *o )
{
  struct draughtboard db ; params( ) ;
  if( initialise_par_rng( NULL ) == GLU_FAILURE ) return -3 ;
  if( init_cb( &db , Latt.Volume , ND ) == GLU_FAILURE ) return -2 ;
  const double ib = NC/( 2.0*NC ) ; int k , s = 0 ;
#pragma omp parallel private(k)
  {
    for( k = 0 ; k < o->b ; k++ ) {
      if( o->a == 0 ) hb_lattice( lat , ib , db ) ; else OR_lattice( lat , db ) ;
    }
  }
  free_cb( &db ) ;
  return s ;
}
static int r_update( struct site *lat , const struct op *o )
{
  struct hb_info H ; char nm[ 32 ] = "cfg.0" ; memset( &H , 0 , sizeof( H ) ) ;
  params( ) ; Latt.flow = 0 ;
  H.beta = 2.0*NC ; H.iterations = 4 ; H.Nmeasure = 2 ; H.Nor = 1 ; H.Nsave = 1 ; H.therm = 1 ; H.continuation = GLU_FALSE ; (void)o ;
  const int s = hb_update( lat , H , nm , OUTPUT_NCxNC , "test" ) ;
  /* the checkpoint holds a date or padding in no format but its text ones: keep it */
  return s ;
}
static int r_u1( struct site *lat , const struct op *o )
{
  struct u1_info u ; u.alpha = 0.3 ; u.charge = 0.7 ; u.meas = o->a ; params( ) ;
  return suNC_cross_u1( lat , u ) ;
}
static int r_gauge( struct site *lat , const struct op *o ) { (void)o ; params( ) ; gauge( lat ) ; return 0 ; }
static int r_plaq( struct site *lat , const struct op *o )
{
  double a , b ; GLU_real mx ; int mu ; params( ) ; (void)o ;
  op_ob( all_plaquettes( lat , &a , &b ) ) ; op_ob( a ) ; op_ob( b ) ; op_ob( av_plaquette( lat ) ) ; op_ob( s_plaq( lat ) ) ; op_ob( t_plaq( lat ) ) ;
  if( o->a ) { op_ob( all_links( lat , &a , &b ) ) ; op_ob( a ) ; op_ob( b ) ; op_ob( links( lat ) ) ; op_ob( s_links( lat ) ) ; op_ob( t_links( lat ) ) ; op_ob( indivlinks( lat , &mx ) ) ; op_ob( mx ) ; op_ob( gauge_functional( lat ) ) ; }
  for( mu = 0 ; mu < ND ; mu++ ) { double complex p = poly( lat , mu ) ; op_ob( creal( p ) ) ; op_ob( cimag( p ) ) ; }
  return 0 ;
}
static int r_gftests( struct site *lat , const struct op *o )
{
  GLU_real mx ; double a , b ; int d ; params( ) ; (void)o ;
  for( d = ND-1 ; d <= ND ; d++ ) {
    op_ob( theta_test_lin( lat , &mx , d ) ) ; op_ob( mx ) ;
#if NC < 4
    op_ob( theta_test_log( lat , &mx , d ) ) ; op_ob( mx ) ;
#endif
  }
  if( Latt.dims[ND-1] > 1 ) { const_time( lat , &a , &b ) ; op_ob( a ) ; op_ob( b ) ; }
  return 0 ;
}
static int r_gmunu( struct site *lat , const struct op *o )
{
  double *red ; size_t k ; double q[ MCOMP_MAXT ] , s0 = 0 , s1 = 0 , s3 = 0 ; params( ) ; (void)o ;
  red = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ;
  int bad = 0 ;
#pragma omp parallel
  {
    double qn = 0 , qo = 0 ;
    gauge_topological_meas_th( red , lat , &qn , &qo , 3 ) ;
    q[ omp_get_thread_num( ) ] = qn ;
#pragma omp barrier
    av_plaquette_th( red , lat ) ;
  }
  for( k = 0 ; k < Latt.Nthreads ; k++ ) { s0 += red[ CLINE*k ] ; s1 += red[ 1 + CLINE*k ] ; s3 += red[ 3 + CLINE*k ] ; if( fabs( q[k] - q[0] ) > 1e-9 ) bad++ ; }
  op_ob( s0 ) ; op_ob( s1 ) ; op_ob( s3 ) ; op_ob( q[0] ) ; op_ob( bad ) ;
#if ND == 4
  GLU_complex *qt = malloc( fxV*sizeof( GLU_complex ) ) ;
  compute_Gmunu_array( qt , lat ) ;
  for( k = 0 ; k < fxV ; k++ ) { op_ob( creal( qt[k] ) ) ; op_ob( cimag( qt[k] ) ) ; }
  free( qt ) ;
#endif
  free( red ) ;
  return 0 ;
}
/* a: mode, b: cut, c: field definition, d: max_t */
static int r_cut( struct site *lat , const struct op *o )
{
  struct cut_info C ; struct sm_info S ; memset( &C , 0 , sizeof( C ) ) ; memset( &S , 0 , sizeof( S ) ) ;
  C.dir = o->a ; C.type = o->b ; C.definition = o->c ; C.max_t = o->d ; C.max_mom = 3 ; C.angle = 60 ; C.cyl_width = 2.0 ; strcpy( C.where , "./" ) ;
  S.type = o->a == SMEARED_GLUONS ? SM_APE : SM_STOUT ; S.dir = ALL_DIRECTIONS ; S.smiters = 1 ;
  params( ) ; Latt.sm_alpha[0] = 0.3 ;
  return cuts_wrap_struct( lat , C , S ) ;
}
static int r_write( struct site *lat , const struct op *o )
{
  struct head_data H ; params( ) ; memset( &H , 0 , sizeof( H ) ) ;
  if( write_configuration( lat , "out.cfg" , o->a , "details" ) == GLU_FAILURE ) return -2 ;
  const struct latt_info sv = Latt ;
  switch( o->a ) { case OUTPUT_HIREP : Latt.head = HIREP_HEADER ; break ; case OUTPUT_MILC : Latt.head = MILC_HEADER ; break ; case OUTPUT_ILDG : Latt.head = ILDG_SCIDAC_HEADER ; break ; case OUTPUT_SCIDAC : Latt.head = SCIDAC_HEADER ; break ; case OUTPUT_CERN : Latt.head = CERN_HEADER ; break ; default : Latt.head = NERSC_HEADER ; }
  struct site *l2 = read_file( &H , "out.cfg" ) ;
  unlink( "out.cfg" ) ;
  int s = 0 ;
  if( l2 == NULL ) s = -4 ; else { cplx *u = fx_get( lat ) ; op_ob( fx_distlat( l2 , u ) > 1e-6 ) ; free( u ) ; free_lat( l2 ) ; }
  Latt.head = sv.head ;
  return s ;
}
static struct op *T ; static int NT ;
static void add( const char *n , int fl , int (*f)( struct site* , const struct op* ) , int a , int b , int c , int d )
{ struct op *o = &T[ NT++ ] ; if( NT > OP_MAX ) abort( ) ; strcpy( o->name , n ) ; o->flags = fl ; o->run = f ; o->a = a ; o->b = b ; o->c = c ; o->d = d ; }
int ops_all( struct op *out )
{
  static const char *sm[] = { "none" , "ape" , "stout" , "log" , "hyp" , "hex" , "hyl" , "wflow-stout" , "wflow-log" , "adaptive-stout" , "adaptive-log" } ;
  int a , d ; char n[ 64 ] ; T = out ; NT = 0 ;
  for( a = SM_APE ; a <= SM_HYL ; a++ ) for( d = ND-1 ; d <= ND ; d++ ) { sprintf( n , "%s%s" , sm[a] , d == ND ? "" : "-spatial" ) ; add( n , OPF_FIELD|OPF_MEAS|OPF_GINV|OPF_COV|( d == ND ? OPF_MEM : 0 )|( a >= SM_LOG ? OPF_SLOW : 0 ) , r_smear , a , d , 2 , 0 ) ; }
  for( a = SM_WFLOW_STOUT ; a <= SM_WFLOW_LOG ; a++ ) add( sm[a] , OPF_FIELD|OPF_MEAS|OPF_GINV|OPF_COV|OPF_MEM|( a == SM_WFLOW_LOG ? OPF_SLOW : 0 ) , r_smear , a , ND , 3 , 30 ) ;
  for( a = SM_ADAPTWFLOW_STOUT ; a <= SM_ADAPTWFLOW_LOG ; a++ ) add( sm[a] , OPF_FIELD|OPF_MEAS|OPF_GINV|OPF_COV|OPF_MEM|OPF_SLOW , r_smear , a , ND , 2 , 30 ) ;
  for( a = 0 ; a < 2 ; a++ ) { sprintf( n , "flow-back-%s" , a ? "cheap" : "fast" ) ; add( n , OPF_FIELD|OPF_MEAS|OPF_GINV|OPF_COV , r_flowback , SM_STOUT , a ? GLU_TRUE : GLU_FALSE , 0 , 0 ) ; }
  add( "landau" , OPF_FIELD|OPF_MEAS|OPF_ITER , r_gf , GLU_LANDAU_FIX , 60 , 2 , 0 ) ;
  add( "landau-restart" , OPF_FIELD|OPF_MEAS|OPF_ITER|OPF_RNG|OPF_SLOW , r_gf , GLU_LANDAU_FIX , 2 , 15 , 1 ) ;
  add( "coulomb" , OPF_FIELD|OPF_MEAS|OPF_ITER|OPF_RNG , r_gf , GLU_COULOMB_FIX , 4 , 15 , 0 ) ;
  add( "coulomb-residual" , OPF_FIELD|OPF_MEAS|OPF_ITER|OPF_RNG , r_gf , GLU_COULOMB_RESIDUAL_FIX , 4 , 15 , 0 ) ;
  add( "axial" , OPF_FIELD|OPF_MEAS , r_gf , GLU_AXIALT_FIX , 6 , 12 , 0 ) ;
  add( "mag" , OPF_FIELD|OPF_MEAS , r_gf , GLU_MAG_FIX , 6 , 12 , 0 ) ;
  add( "gtransform" , OPF_FIELD|OPF_MEAS , o_gtrans , 0 , 0 , 0 , 0 ) ;
  add( "gtransform-slice" , OPF_FIELD|OPF_MEAS , o_gtrans , 1 , 0 , 0 , 0 ) ;
  add( "reunitg" , OPF_MEAS , o_gtrans , 2 , 0 , 0 , 0 ) ;
  add( "random-gtrans" , OPF_FIELD|OPF_RNG , r_random , 0 , 0 , 0 , 0 ) ;
  add( "random-suNC" , OPF_FIELD|OPF_RNG , r_random , 1 , 0 , 0 , 0 ) ;
  add( "trivial" , OPF_FIELD , r_random , 2 , 0 , 0 , 0 ) ;
  add( "reunitU" , OPF_FIELD , r_random , 3 , 0 , 0 , 0 ) ;
  add( "instanton" , OPF_FIELD , r_random , 4 , 0 , 0 , 0 ) ;
  add( "heatbath" , OPF_FIELD|OPF_RNG , r_sweep , 0 , 1 , 0 , 0 ) ;
  add( "overrelax" , OPF_FIELD , r_sweep , 1 , 2 , 0 , 0 ) ;
  add( "hb-update" , OPF_FIELD|OPF_RNG|OPF_MEAS|OPF_IO , r_update , 0 , 0 , 0 , 0 ) ;
  for( a = U1_PLAQUETTE ; a <= U1_TOPOLOGICAL ; a++ ) { sprintf( n , "u1-%d" , a ) ; add( n , OPF_FIELD|OPF_RNG|OPF_MEAS|OPF_FFT , r_u1 , a , 0 , 0 , 0 ) ; }
  add( "gauge" , OPF_MEAS , r_gauge , 0 , 0 , 0 , 0 ) ;
  add( "plaquettes-links" , OPF_MEAS , r_plaq , 1 , 0 , 0 , 0 ) ;
  add( "plaquettes" , OPF_MEAS|OPF_GINV , r_plaq , 0 , 0 , 0 , 0 ) ;
  add( "gftests" , OPF_MEAS , r_gftests , 0 , 0 , 0 , 0 ) ;
  add( "gmunu" , OPF_MEAS|OPF_GINV , r_gmunu , 0 , 0 , 0 , 0 ) ;
  {
    static const char *md[] = { "exceptional" , "nonexceptional" , "fields" , "smeared" , "instantaneous" , "configspace" , "gluonprops" , "staticpot" , "qcorr" , "qmoments" , "qsusc" } ;
    for( a = EXCEPTIONAL ; a <= TOPOLOGICAL_SUSCEPTIBILITY ; a++ ) {
      const int ginv = a > STATIC_POTENTIAL , fft = a != CONFIGSPACE_GLUONS && a < STATIC_POTENTIAL ;
      for( d = 0 ; d < ( a >= CONFIGSPACE_GLUONS && a != GLUON_PROPS ? 1 : 2 ) ; d++ ) {
	sprintf( n , "cut-%s%s" , md[a] , d ? "-log" : "" ) ;
	add( n , OPF_MEAS|( ginv ? OPF_GINV : 0 )|( fft ? OPF_FFT : 0 ) , r_cut , a , PSQ_CUT , d ? LOG_DEF : LINEAR_DEF , a == CONFIGSPACE_GLUONS ? 1 : 3 ) ;
      }
    }
    add( "cut-configspace-2" , OPF_MEAS , r_cut , CONFIGSPACE_GLUONS , PSQ_CUT , LINEAR_DEF , 2 ) ;
    add( "cut-gluonprops-hyp" , OPF_MEAS|OPF_FFT , r_cut , GLUON_PROPS , HYPERCUBIC_CUT , LINEAR_DEF , 3 ) ;
    add( "cut-gluonprops-cyl" , OPF_MEAS|OPF_FFT , r_cut , GLUON_PROPS , CYLINDER_CUT , LINEAR_DEF , 3 ) ;
    add( "cut-gluonprops-cone" , OPF_MEAS|OPF_FFT , r_cut , GLUON_PROPS , CYLINDER_AND_CONICAL_CUT , LINEAR_DEF , 3 ) ;
  }
  for( a = OUTPUT_SMALL ; a <= OUTPUT_CERN ; a++ ) {
    if( a == OUTPUT_SMALL && NC > 3 ) continue ;
    if( a == OUTPUT_CERN && !( NC == 3 && ND == 4 ) ) continue ;
    sprintf( n , "write-%d" , a ) ; add( n , OPF_IO|OPF_MEM , r_write , a , 0 , 0 , 0 ) ;
  }
  return NT ;
}
