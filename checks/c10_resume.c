/* C10: a Monte-Carlo run continued from a checkpoint equals the run that was not
   interrupted.  The program itself is run: every checkpoint and every later
   stopping point, whole chains of interruptions in one directory, every crash
   point of the files it writes. */
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "fx.h"
#include "mcomp.h"
#include "mcenv.h"
#include "GLUlib_wrap.h"
#include "plaqs_links.h"
#include "cli.h"
#include <math.h>
static int T = 1 ; static char where[ 200 ] ;
/* fields are equal to this: rounding, which a chain of updates amplifies where a format is reunitarised on reading */
static double tolU = 1e-7 ;
typedef struct { int start , iters , save , meas , nor , therm ; const char *storage , *header ; const size_t *dims ; int unit ; } par ;
static void options( const par *p , int first , int confno , int iters )
{
  int mu ; char d[ 8 ] ; cli_set( "MODE" , "HEATBATH" ) ; cli_set( "HEADER" , "%s" , first ? ( p->unit == 1 ? "UNIT" : p->unit == 2 ? "RANDOM" : p->header ) : p->header ) ; cli_set( "CONFNO" , "%d" , confno ) ; cli_set( "ITERS" , "%d" , iters ) ; cli_set( "SAVE" , "%d" , p->save ) ; cli_set( "MEASURE" , "%d" , p->meas ) ;
  cli_set( "OVER_ITERS" , "%d" , p->nor ) ; cli_set( "THERM" , "%d" , p->therm ) ; cli_set( "STORAGE" , "%s" , p->storage ) ; cli_set( "BETA" , "%g" , 1.9*NC ) ; for( mu = 0 ; mu < ND ; mu++ ) { snprintf( d , sizeof( d ) , "DIM_%d" , mu ) ; cli_set( d , "%zu" , p->dims[mu] ) ; }
}
/* the measurements a run printed */
typedef struct { int n , k[ 64 ] ; double p[ 64 ] ; } meas ;
static meas measured( void ) { meas m ; m.n = 0 ; char *s = cli_out ; while( s && ( s = strstr( s , "[UPDATE] " ) ) && m.n < 64 ) { int k , c = 0 ; double p ; if( sscanf( s , "[UPDATE] %d :: {P} %lf%n" , &k , &p , &c ) == 2 && c ) { m.k[ m.n ] = k ; m.p[ m.n++ ] = p ; } s += 9 ; } return m ; }
static int is_ckpt( const par *p , int start , int k , int stop ) { return k > start && k < stop && k%p->save == 0 ; }
/* the field in a file */
static cplx *field( const char *file , const par *p , double *plaq , size_t *no )
{
  cplx *U = NULL ; struct head_data H ; int mu ; memset( &Latt , 0 , sizeof( Latt ) ) ; Latt.Nthreads = 1 ; static const struct { const char *n ; header_mode h ; } t[] = { { "NERSC" , NERSC_HEADER } , { "HIREP" , HIREP_HEADER } , { "MILC" , MILC_HEADER } , { "SCIDAC" , SCIDAC_HEADER } , { "ILDG_SCIDAC" , ILDG_SCIDAC_HEADER } , { "ILDG_BQCD" , ILDG_BQCD_HEADER } , { "CERN" , CERN_HEADER } } ;
  size_t i ; for( i = 0 ; i < sizeof( t )/sizeof( t[0] ) ; i++ ) if( !strcmp( t[i].n , p->header ) ) Latt.head = t[i].h ;
  for( mu = 0 ; mu < ND ; mu++ ) Latt.dims[mu] = p->dims[mu] ;
  size_t l ; mc_capture( ) ; struct site *lat = read_file( &H , file ) ; free( mc_captured( &l ) ) ; if( !lat ) return NULL ; fxV = Latt.Volume ; U = fx_get( lat ) ; if( plaq ) *plaq = av_plaquette( lat ) ; if( no ) *no = Latt.flow ; free_lat( lat ) ; return U ;
}
static void same_file( const char *what , const char *a , const char *b , const par *p )
{
  mc_states( 1 ) ; if( cli_same( a , b ) ) return ; size_t n ;
  if( strstr( a , ".rand" ) ) { mc_fail( "generator" , "%s %s: the generator state in %s differs from that of the uninterrupted run" , where , what , a ) ; return ; }
  cplx *x = field( a , p , NULL , &n ) , *y = field( b , p , NULL , NULL ) ;
  if( !x || !y ) mc_fail( "read" , "%s %s: %s cannot be read" , where , what , x ? b : a ) ;
  else if( fx_dist( x , y ) > tolU ) mc_fail( "field" , "%s %s: the field in %s differs from that of the uninterrupted run by %.2e" , where , what , a , fx_dist( x , y ) ) ;
  free( x ) ; free( y ) ;
}
/* compares the files and measurements of a run over [from,stop) with those of the whole run in ../ref */
static meas whole ;
static void same_run( const char *what , const par *p , int from , int stop , int files )
{
  char f[ 80 ] , g[ 80 ] ; int k , j ; const meas m = measured( ) ; int n = 0 ;
  for( k = from ; k < stop && !mc_nfail( ) ; k++ ) { if( k%p->meas ) continue ; for( j = 0 ; j < m.n && m.k[j] != k ; j++ ) ; if( j == m.n ) { mc_fail( "measured" , "%s %s: configuration %d is not measured" , where , what , k ) ; return ; } n++ ; int i ; for( i = 0 ; i < whole.n && whole.k[i] != k ; i++ ) ;
    if( i < whole.n && fabs( whole.p[i] - m.p[j] ) > 2*tolU ) mc_fail( "plaquette" , "%s %s: configuration %d has plaquette %.12f, in the uninterrupted run %.12f" , where , what , k , m.p[j] , whole.p[i] ) ; }
  if( m.n != n && !mc_nfail( ) ) mc_fail( "extra" , "%s %s: %d measurements instead of %d" , where , what , m.n , n ) ;
  if( !files || mc_nfail( ) ) return ;
  for( k = from + 1 ; k < stop && !mc_nfail( ) ; k++ ) { if( !is_ckpt( p , from , k , stop ) ) continue ; snprintf( f , sizeof( f ) , "conf.%d" , k ) ; snprintf( g , sizeof( g ) , "../ref/conf.%d" , k ) ;
    if( access( f , R_OK ) ) { mc_fail( "missing" , "%s %s: no checkpoint %d" , where , what , k ) ; return ; } same_file( what , f , g , p ) ;
    snprintf( f , sizeof( f ) , "conf.%d.rand" , k ) ; snprintf( g , sizeof( g ) , "../ref/conf.%d.rand" , k ) ; if( !mc_nfail( ) ) { if( access( f , R_OK ) ) { mc_fail( "missing" , "%s %s: no generator state %d" , where , what , k ) ; return ; } same_file( what , f , g , p ) ; } }
}
/* exactly the expected names are in the directory */
static void names( const char *what , const par *p , int start , int stop , int with_start )
{
  const int n = cli_ls( "." ) ; int i , k , want = 0 ; char f[ 40 ] ; for( k = start ; k < stop ; k++ ) want += is_ckpt( p , start , k , stop )*2 ;
  for( i = 0 ; i < n ; i++ ) { for( k = start ; k < stop ; k++ ) { if( !is_ckpt( p , start , k , stop ) ) continue ; snprintf( f , sizeof( f ) , "conf.%d" , k ) ; if( !strcmp( f , cli_names[i] ) ) break ; snprintf( f , sizeof( f ) , "conf.%d.rand" , k ) ; if( !strcmp( f , cli_names[i] ) ) break ; } if( k == stop ) { snprintf( f , sizeof( f ) , "conf.%d" , start ) ; if( with_start && ( !strcmp( f , cli_names[i] ) || ( !strncmp( f , cli_names[i] , strlen( f ) ) && !strcmp( cli_names[i] + strlen( f ) , ".rand" ) ) ) ) { want++ ; continue ; } mc_fail( "files" , "%s %s: leaves %s" , where , what , cli_names[i] ) ; return ; } }
  if( n != want ) mc_fail( "files" , "%s %s: %d files instead of %d" , where , what , n , want ) ;
}
static void in( const char *d ) { if( chdir( d ) ) abort( ) ; }
static void fresh( const char *d ) { mkdir( d , 0700 ) ; cli_clean( d ) ; }
/* the uninterrupted run, in ref; returns 0 if it could not be made */
static int reference( const par *p )
{
  char c[ 40 ] ; fresh( "ref" ) ; fresh( "w" ) ; in( "ref" ) ; snprintf( c , sizeof( c ) , "conf.%d" , p->start ) ;
  if( !p->unit ) { /* a start from a file with its own number */
    size_t d[ ND ] ; int mu ; for( mu = 0 ; mu < ND ; mu++ ) d[mu] = p->dims[mu] ; mcomp_config( 1 , POL_RR ) ; fx_dims( d ) ; cplx *U = fx_field( F_HOT , 5 ) ; struct site *lat = fx_lat( U ) ; Latt.flow = p->start ; size_t l ; mc_capture( ) ;
    const struct { const char *n ; GLU_output o ; } t[] = { { "NERSC_NCxNC" , OUTPUT_NCxNC } , { "NERSC_SMALL" , OUTPUT_SMALL } , { "NERSC_GAUGE" , OUTPUT_GAUGE } , { "HIREP" , OUTPUT_HIREP } , { "MILC" , OUTPUT_MILC } , { "SCIDAC" , OUTPUT_SCIDAC } , { "ILDG" , OUTPUT_ILDG } , { "CERN" , OUTPUT_CERN } } ; size_t k ; for( k = 0 ; k < 8 ; k++ ) if( !strcmp( t[k].n , p->storage ) ) break ;
    if( write_configuration( lat , c , t[k].o , "x" ) == GLU_FAILURE ) mc_fail( "start" , "%s: cannot write the start" , where ) ; free( mc_captured( &l ) ) ; free( U ) ; free_lat( lat ) ; fx_undims( ) ; }
  options( p , 1 , p->start , p->iters ) ; const int s = cli_run( c , NULL , 60 ) ;
  if( s ) { mc_fail( "status" , "%s: the uninterrupted run ends with status %d" , where , s ) ; in( ".." ) ; return 0 ; }
  whole = measured( ) ; same_run( "the uninterrupted run" , p , p->start , p->iters , 0 ) ; names( "the uninterrupted run" , p , p->start , p->iters , !p->unit ) ;
  int k , j ; for( k = p->start + 1 ; k < p->iters && !mc_nfail( ) ; k++ ) if( is_ckpt( p , p->start , k , p->iters ) ) { double pl ; size_t no ; snprintf( c , sizeof( c ) , "conf.%d" , k ) ; cplx *U = field( c , p , &pl , &no ) ;
    if( !U ) { mc_fail( "unreadable" , "%s: checkpoint %d cannot be read" , where , k ) ; break ; } mc_distinct( fx_hash( U ) ) ; free( U ) ;
    if( !strcmp( p->header , "NERSC" ) && no != (size_t)k ) mc_fail( "number" , "%s: checkpoint %d says it is number %zu" , where , k , no ) ;
    for( j = 0 ; j < whole.n ; j++ ) if( whole.k[j] == k && fabs( whole.p[j] - pl ) > 1e-10 ) mc_fail( "plaquette" , "%s: checkpoint %d has plaquette %.12f, measured as %.12f" , where , k , pl , whole.p[j] ) ; }
  in( ".." ) ; return !mc_nfail( ) ;
}
/* every checkpoint as an interruption, every later stopping point */
static void pairs( const par *p )
{
  int k , n ; char c[ 40 ] , f[ 60 ] , what[ 80 ] ; if( !reference( p ) ) return ; in( "w" ) ;
  for( k = p->start + 1 ; k < p->iters ; k++ ) if( is_ckpt( p , p->start , k , p->iters ) ) for( n = p->iters ; n > k && !mc_nfail( ) ; n -= mc_thorough( ) ? 1 : 2 ) {
    cli_clean( "." ) ; snprintf( c , sizeof( c ) , "conf.%d" , k ) ; snprintf( f , sizeof( f ) , "../ref/%s" , c ) ; cli_copy( f , c ) ; strcat( f , ".rand" ) ; char r[ 48 ] ; snprintf( r , sizeof( r ) , "%s.rand" , c ) ; cli_copy( f , r ) ;
    snprintf( what , sizeof( what ) , "continued from %d to %d" , k , n ) ; options( p , 0 , strcmp( p->header , "NERSC" ) ? k : 0 , n ) ; cli_set( "SEED" , "77" ) ; const int s = cli_run( c , NULL , 60 ) ; cli_set( "SEED" , "1234" ) ;
    if( s ) { mc_fail( "status" , "%s %s ends with status %d" , where , what , s ) ; break ; } same_run( what , p , k , n , 1 ) ; if( !mc_nfail( ) ) names( what , p , k , n , 1 ) ; }
  in( ".." ) ;
}
/* continued in a directory that holds the later checkpoints too, except one */
static void again( const par *p )
{
  int k , n ; char c[ 48 ] , f[ 64 ] , what[ 80 ] ; if( !reference( p ) ) return ; in( "w" ) ;
  for( k = p->start + 1 ; k < p->iters ; k++ ) if( is_ckpt( p , p->start , k , p->iters ) ) for( n = k + 1 ; n < p->iters && !mc_nfail( ) ; n++ ) if( is_ckpt( p , p->start , n , p->iters ) ) { int j ; cli_clean( "." ) ;
    for( j = p->start ; j < p->iters ; j++ ) if( j != n ) { int r ; for( r = 0 ; r < 2 ; r++ ) { snprintf( c , sizeof( c ) , "conf.%d%s" , j , r ? ".rand" : "" ) ; snprintf( f , sizeof( f ) , "../ref/%s" , c ) ; cli_copy( f , c ) ; } }
    snprintf( c , sizeof( c ) , "conf.%d" , k ) ; snprintf( what , sizeof( what ) , "continued from %d where only %d is missing" , k , n ) ; options( p , 0 , k , p->iters ) ; const int s = cli_run( c , NULL , 60 ) ;
    if( s ) { mc_fail( "status" , "%s %s ends with status %d" , where , what , s ) ; break ; } same_run( what , p , k , p->iters , 1 ) ; if( !mc_nfail( ) ) names( what , p , p->start , p->iters , !p->unit ) ; mc_progress( "%s" , what ) ; }
  in( ".." ) ;
}
/* a checkpoint that cannot be saved is reported, and nothing is left of it */
static void unsaved( const par *p )
{
  char num[ 20 ] , what[ 100 ] , c[ 48 ] , f[ 64 ] ; long e ; int i ; if( !reference( p ) ) return ; in( "w" ) ;
  for( e = 0 ; e < 40 && !mc_nfail( ) ; e++ ) { cli_clean( "." ) ; snprintf( num , sizeof( num ) , "%ld" , e ) ; setenv( "MCENV_FOPEN_FAILAT" , num , 1 ) ; options( p , 1 , p->start , p->iters ) ; snprintf( what , sizeof( what ) , "file %ld cannot be created" , e ) ; snprintf( c , sizeof( c ) , "conf.%d" , p->start ) ;
    const int s = cli_run( c , NULL , 60 ) ; unsetenv( "MCENV_FOPEN_FAILAT" ) ; const int n = cli_ls( "." ) ;
    for( i = 0 ; i < n && !mc_nfail( ) ; i++ ) { snprintf( c , sizeof( c ) , "%s" , cli_names[i] ) ; if( strstr( c , ".rand" ) ) continue ; snprintf( f , sizeof( f ) , "../ref/%s" , c ) ; if( access( f , R_OK ) ) mc_fail( "left" , "%s %s: leaves %s" , where , what , c ) ; else same_file( what , c , f , p ) ; if( mc_nfail( ) ) break ; strcat( c , ".rand" ) ; if( access( c , R_OK ) ) mc_fail( "pair" , "%s %s: no generator state with %s" , where , what , c ) ; cli_ls( "." ) ; }
    int full = 1 , k ; for( k = p->start + 1 ; k < p->iters ; k++ ) if( is_ckpt( p , p->start , k , p->iters ) ) { snprintf( c , sizeof( c ) , "conf.%d" , k ) ; if( access( c , R_OK ) ) full = 0 ; }
    if( !mc_nfail( ) && s < 0 ) mc_fail( "crash" , "%s %s: signal %d" , where , what , -s ) ;
    if( !mc_nfail( ) && !full && ( s == 0 || !*cli_err ) ) mc_fail( "silent" , "%s %s: a checkpoint is missing but the run reports success" , where , what ) ;
    if( full && !s ) break ; mc_progress( "%s" , what ) ; }
  mc_sample( "%ld files" , e ) ; in( ".." ) ;
}
/* every set of interruptions, all in one directory */
static void chains( const par *p )
{
  int ck[ 16 ] , n = 0 , k , m ; char c[ 48 ] , what[ 120 ] ; if( !reference( p ) ) return ; for( k = p->start + 1 ; k < p->iters ; k++ ) if( is_ckpt( p , p->start , k , p->iters ) && n < 16 ) ck[ n++ ] = k ;
  in( "w" ) ;
  for( m = 0 ; m < 1 << n && !mc_nfail( ) ; m++ ) { int from = p->start , i ; cli_clean( "." ) ; snprintf( c , sizeof( c ) , "conf.%d" , p->start ) ; if( !p->unit ) { char f[ 64 ] ; snprintf( f , sizeof( f ) , "../ref/%s" , c ) ; cli_copy( f , c ) ; }
    snprintf( what , sizeof( what ) , "interrupted after" ) ; for( i = 0 ; i < n ; i++ ) if( m >> i & 1 ) snprintf( what + strlen( what ) , sizeof( what ) - strlen( what ) , " %d" , ck[i] ) ;
    for( i = 0 ; i <= n && !mc_nfail( ) ; i++ ) if( i == n || m >> i & 1 ) { const int stop = i == n ? p->iters : ck[i] + 1 ; options( p , from == p->start , strcmp( p->header , "NERSC" ) || from == p->start ? from : 0 , stop ) ; snprintf( c , sizeof( c ) , "conf.%d" , from ) ; const int s = cli_run( c , NULL , 60 ) ;
	if( s ) { mc_fail( "status" , "%s %s: status %d" , where , what , s ) ; break ; } same_run( what , p , from , stop , 1 ) ; if( i < n ) from = ck[i] ; }
    if( !mc_nfail( ) ) names( what , p , p->start , p->iters , !p->unit ) ; mc_progress( "%s" , what ) ; }
  in( ".." ) ;
}
/* the last complete checkpoint in the directory, as a user would pick it: the file with the highest number */
static int latest( int start ) { const int n = cli_ls( "." ) ; int i , k , best = start , c ; for( i = 0 ; i < n ; i++ ) if( sscanf( cli_names[i] , "conf.%d%n" , &k , &c ) == 1 && !cli_names[i][c] && k > best ) best = k ; return best ; }
/* the program dies before any file-system event, or when a file reaches a size; then it is continued from the latest checkpoint */
static void crashes( const par *p , int bysize )
{
  char c[ 48 ] , what[ 120 ] , num[ 20 ] ; if( !reference( p ) ) return ; in( "w" ) ; long e ; size_t big = 0 ; struct stat st ; if( bysize ) { in( "../ref" ) ; const int n = cli_ls( "." ) ; int i ; for( i = 0 ; i < n ; i++ ) if( !stat( cli_names[i] , &st ) && (size_t)st.st_size > big ) big = st.st_size ; in( "../w" ) ; }
  for( e = 0 ; !mc_nfail( ) ; e++ ) { cli_clean( "." ) ; int s , dies = 0 , from ;
    const int two = mc_thorough( ) ? 2 : 1 ; int round ; long step = big/( mc_thorough( ) ? 80 : 24 ) + 1 ;
    if( bysize && (size_t)( e*step ) > big ) break ;
    for( round = 0 ; round < two + 1 ; round++ ) { from = latest( p->start ) ; snprintf( c , sizeof( c ) , "conf.%d" , from ) ; options( p , from == p->start , from , p->iters ) ; if( round == two ) break ;
      if( bysize ) { cli_fsize = e*step ; snprintf( what , sizeof( what ) , "stopped when a file reaches %ld bytes" , cli_fsize ) ; } else { snprintf( num , sizeof( num ) , "%ld" , e ) ; setenv( "MCENV_KILLAT" , num , 1 ) ; snprintf( what , sizeof( what ) , "killed before file event %ld%s" , e , round ? ", twice" : "" ) ; }
      s = cli_run( c , NULL , 60 ) ; unsetenv( "MCENV_KILLAT" ) ; cli_fsize = -1 ; dies = s ; if( !s ) break ;
      if( s != 137 && !bysize ) { mc_fail( "status" , "%s %s: status %d" , where , what , s ) ; in( ".." ) ; return ; } }
    from = latest( p->start ) ; snprintf( c , sizeof( c ) , "conf.%d" , from ) ; options( p , from == p->start , from , p->iters ) ; mc_progress( "%s" , what ) ;
    if( from > p->start ) { char f[ 64 ] , g[ 72 ] ; snprintf( f , sizeof( f ) , "%s.rand" , c ) ; if( access( f , R_OK ) ) { mc_fail( "incomplete" , "%s %s: checkpoint %d is there without its generator state" , where , what , from ) ; break ; }
      snprintf( g , sizeof( g ) , "../ref/%s" , c ) ; same_file( what , c , g , p ) ; snprintf( g , sizeof( g ) , "../ref/%s" , f ) ; same_file( what , f , g , p ) ; if( mc_nfail( ) ) break ; }
    if( dies ) { s = cli_run( c , NULL , 60 ) ; if( s ) { mc_fail( "recovery" , "%s %s, continued from %d: status %d" , where , what , from , s ) ; break ; } same_run( what , p , from , p->iters , 1 ) ; if( !mc_nfail( ) ) names( what , p , p->start , p->iters , 0 ) ; }
    if( !dies && !bysize ) break ; }
  mc_sample( "%s: %ld crash points" , bysize ? "sizes" : "events" , e ) ; in( ".." ) ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C10" , "resume" ) ; mc_timeout( 300 ) ; if( chdir( mc_scratch( ) ) ) { } attach_GLU( ) ; mcenv_membytes = 1LL << 40 ; const int quick = !mc_thorough( ) ;
#if ND == 4
  static const size_t sh[][ 4 ] = { { 2,2,2,2 } , { 3,2,2,2 } , { 2,4,3,2 } } ;
#else
  static const size_t sh[][ 3 ] = { { 2,2,2 } , { 3,2,2 } , { 2,4,3 } } ;
#endif
  int s , t , sv , me , no , th , un ; char ts[ 8 ] ; const int N = quick ? 7 : 11 ;
  static const struct { const char *s , *h ; } form[] = { { "NERSC_NCxNC" , "NERSC" } , { "HIREP" , "HIREP" } , { "MILC" , "MILC" } , { "SCIDAC" , "SCIDAC" } , { "ILDG" , "ILDG_SCIDAC" } , { "NERSC_SMALL" , "NERSC" } , { "NERSC_GAUGE" , "NERSC" } , { "CERN" , "CERN" } } ;
#define LONG( n ) ( tolU = NC > 3 && s == 1 ? 1e-3 : 1e-7 , NC > 3 && s == 1 ? 5 : ( n ) )
#define RUN(F,...) { if( chdir( mc_scratch( ) ) ) { } T = t ; snprintf( ts , sizeof( ts ) , "%d" , t ) ; setenv( "MCOMP_T" , ts , 1 ) ; snprintf( ts , sizeof( ts ) , "%d" , ( t + sv )%4 ) ; setenv( "MCOMP_P" , ts , 1 ) ; F( __VA_ARGS__ ) ; }
  for( un = 0 ; un < 3 ; un++ ) for( t = 1 ; t <= 3 ; t++ ) for( s = 0 ; s < ( quick ? 2 : 3 ) ; s++ ) for( sv = 1 ; sv <= 3 ; sv++ ) if( mc_begin( "pairs start %d threads %d shape %d save %d" , un , t , s , sv ) ) {
    for( me = 1 ; me <= 3 ; me++ ) for( no = 0 ; no <= 2 ; no += 2 ) for( th = 0 ; th <= 2 ; th += 2 ) { if( quick && ( me + no/2 + th/2 + t + s )%3 ) continue ; if( mc_nfail( ) ) continue ; par p = { un ? 0 : 2 , N , sv , me , no , th , "NERSC_NCxNC" , "NERSC" , sh[s] , un } ;
      snprintf( where , sizeof( where ) , "%d threads, %s start, save %d, measure %d, %d overrelaxations, %d thermalisations:" , t , un == 1 ? "unit" : un == 2 ? "random" : "file" , sv , me , no , th ) ; mc_progress( "pairs" ) ; RUN( pairs , &p ) }
    mc_end( ) ; }
  for( un = 0 ; un < 3 ; un++ ) for( t = 1 ; t <= 2 ; t++ ) for( sv = 1 ; sv <= 2 ; sv++ ) if( mc_begin( "chains start %d threads %d save %d" , un , t , sv ) ) { par p = { un ? 0 : 3 , quick ? sv == 1 ? un ? 6 : 8 : 11 : sv == 1 ? 9 : 15 , sv , 1 , 1 , 1 , "NERSC_NCxNC" , "NERSC" , sh[1] , un } ; snprintf( where , sizeof( where ) , "%d threads, start %d, save %d:" , t , un , sv ) ; RUN( chains , &p ) mc_end( ) ; }
  for( s = 1 ; s < 8 ; s++ ) for( t = 1 ; t <= 3 ; t++ ) if( mc_begin( "format %s %s threads %d" , form[s].s , form[s].h , t ) ) {
    if( ( s == 7 && ( ND != 4 || NC != 3 ) ) || ( s == 5 && NC > 3 ) ) { mc_end( ) ; continue ; }
    for( un = 0 ; un < 2 ; un++ ) for( sv = 1 ; sv < 3 ; sv++ ) { if( mc_nfail( ) ) continue ; /* formats that are reunitarised on reading keep a field only to rounding, which a chain amplifies */ par p = { un ? 0 : 2 , s == 1 ? LONG( 5 ) : N , sv , 1 , 0 , 1 , form[s].s , form[s].h , sh[0] , un } ; snprintf( where , sizeof( where ) , "%s, %d threads, save %d, start %d:" , form[s].s , t , sv , un ) ; RUN( pairs , &p ) }
    mc_end( ) ; }
  /* numbers far from the start of a history, longer periods and thermalisations */
  static const int far[] = { 8 , 14 , 30 , 62 , 97 , 126 , 254 , 510 , 998 , 4093 , 65533 , 99997 , 1048574 } ;
  for( un = 0 ; un < (int)( sizeof( far )/sizeof( far[0] ) ) ; un++ ) for( sv = 2 ; sv <= ( quick ? 3 : 6 ) ; sv++ ) if( mc_begin( "far start %d save %d" , far[un] , sv ) ) { t = 1 + un%3 ; s = un%2 ? 0 : 2 ; par p = { far[un] , far[un] + 3*sv + 1 , sv , 1 + ( un + sv )%4 , sv , un%4 == 0 ? 17 : un%4 == 2 ? 33 : 0 , form[s].s , form[s].h , sh[0] , 0 } ; tolU = 1e-7 ; snprintf( where , sizeof( where ) , "%s, %d threads, save %d, start %d:" , form[s].s , t , sv , far[un] ) ; RUN( pairs , &p ) mc_end( ) ; }
  for( un = 0 ; un < 2 ; un++ ) for( t = 1 ; t <= 3 ; t++ ) for( s = 0 ; s < 2 ; s++ ) if( mc_begin( "again start %d threads %d format %d" , un , t , s ) ) { sv = 2 ; par p = { un ? 0 : NC > 3 && s == 1 ? 1 : 3 , LONG( quick ? 9 : 13 ) + ( NC > 3 && s == 1 ) , sv , 1 , 0 , 1 , form[s].s , form[s].h , sh[1] , un } ; snprintf( where , sizeof( where ) , "%d threads, start %d:" , t , un ) ; RUN( again , &p ) mc_end( ) ; }
  for( t = 1 ; t <= 2 ; t++ ) for( s = 0 ; s < 8 ; s++ ) if( mc_begin( "unsaved format %d threads %d" , s , t ) ) { if( ( s == 7 && ( ND != 4 || NC != 3 ) ) || ( s == 5 && NC > 3 ) ) { mc_end( ) ; continue ; } sv = 2 ; par p = { 0 , LONG( NC > 3 ? 7 : 8 ) , sv , 1 , 0 , 1 , form[s].s , form[s].h , sh[0] , 1 } ; if( NC > 3 ) tolU = 1e-3 ; /* a field that was not saved was not reunitarised */ snprintf( where , sizeof( where ) , "%s, %d threads:" , form[s].s , t ) ; RUN( unsaved , &p ) mc_end( ) ; }
  for( s = 0 ; s < 8 ; s++ ) for( t = 1 ; t <= 2 ; t++ ) for( un = 0 ; un < 2 ; un++ ) if( mc_begin( "crash %s %s by %s threads %d" , form[s].s , form[s].h , un ? "size" : "event" , t ) ) {
    if( ( s == 7 && ( ND != 4 || NC != 3 ) ) || ( s == 5 && NC > 3 ) ) { mc_end( ) ; continue ; }
    if( quick && s > 1 && ( s + t + un )%3 ) { mc_end( ) ; continue ; }
    sv = 2 ; par p = { 0 , LONG( quick ? 6 : 9 ) , sv , 1 , 0 , 0 , form[s].s , form[s].h , sh[1] , 1 } ; snprintf( where , sizeof( where ) , "%s, %d threads:" , form[s].s , t ) ; if( s == 7 ) p.dims = sh[0] ; RUN( crashes , &p , un ) mc_end( ) ; }
  return mc_finish( ) ;
}
