/* C11: the random generators as state machines: every history of draws, saves
   and restores up to a depth, every truncation and corruption of a state file,
   every team size. */
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "fx.h"
#include "mc.h"
#include "mcomp.h"
#include "mcenv.h"
#include "par_rng.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <omp.h>
#define LEN 6000
static const uint32_t seeds[] = { 1 , 1234567 , 0x7fffffff , 0xffffff00u , 0x80000000u , 4096 } ;
static double *ref[ 6 ][ 16 ] ; /* reference streams */
static void start( uint32_t seed , int T ) { Latt.Seed[0] = seed ; Latt.Nthreads = T ; size_t l ; mc_capture( ) ; const int st = initialise_par_rng( NULL ) ; free( mc_captured( &l ) ) ; if( st != GLU_SUCCESS ) mc_fail( "init" , "initialising with seed %u for %d threads fails" , seed , T ) ; }
static void setup( int T ) { mcomp_config( T , POL_RR ) ; const size_t d[] = { 2,2,2,2,2 } ; fx_dims( d ) ; Latt.Nthreads = T ; }
static void reference( int k , int T , int n ) { int t ; start( seeds[k] , T ) ; for( t = 0 ; t < T ; t++ ) { ref[k][t] = malloc( n*sizeof( double ) ) ; int i ; for( i = 0 ; i < n ; i++ ) ref[k][t][i] = par_rng_dbl( t ) ; } free_par_rng( ) ; }

static void streams( int T )
{
  setup( T ) ; int k , t , i , j , p ; const int n = mc_thorough( ) ? LEN : 2500 , K = mc_thorough( ) ? 6 : 4 ;
  for( k = 0 ; k < K ; k++ ) reference( k , T , n ) ;
  /* in range, not constant, and not shared between threads or seeds at any offset */
  double *all = malloc( sizeof( double )*K*T*n ) ; long *own = malloc( sizeof( long )*2*( 1 << 19 ) ) ; memset( own , -1 , sizeof( long )*2*( 1 << 19 ) ) ; double *a = all ;
  for( k = 0 ; k < K ; k++ ) for( t = 0 ; t < T ; t++ ) for( i = 0 ; i < n ; i++ ) *a++ = ref[k][t][i] ;
  const long tot = (long)K*T*n ; long x ;
  for( x = 0 ; x < tot ; x++ ) { if( !( all[x] >= 0 && all[x] < 1 ) ) { mc_fail( "range" , "seed %u thread %ld of %d draws %.17g" , seeds[ x/n/T ] , x/n%T , T , all[x] ) ; return ; } mc_trans( 1 ) ; }
  for( x = 0 ; x < tot ; x += n ) mc_distinct( mc_hash( all + x , 32*sizeof( double ) , 11 ) ) ;
  for( x = 0 ; x + 3 < tot ; x++ ) { if( x%n + 3 >= n ) continue ;
    if( all[x] == all[x+1] && all[x+1] == all[x+2] ) { mc_fail( "stuck" , "seed %u thread %ld repeats %.17g" , seeds[ x/n/T ] , x/n%T , all[x] ) ; return ; }
    uint64_t h = 1469598103934665603ULL ; for( j = 0 ; j < 3 ; j++ ) { uint64_t b ; memcpy( &b , all + x + j , 8 ) ; h = ( h ^ b )*1099511628211ULL ; h ^= h >> 29 ; }
    size_t s = h & ( ( 1 << 20 ) - 1 ) ; while( own[s] >= 0 ) { const long y = own[s] ; if( all[y] == all[x] && all[y+1] == all[x+1] && all[y+2] == all[x+2] && x/n != y/n ) { mc_fail( "shared" , "seed %u thread %ld and seed %u thread %ld of %d draw the same numbers (%.17g %.17g %.17g at draws %ld and %ld)" , seeds[ x/n/T ] , x/n%T , seeds[ y/n/T ] , y/n%T , T , all[x] , all[x+1] , all[x+2] , x%n , y%n ) ; return ; } s = ( s + 1 ) & ( ( 1 << 20 ) - 1 ) ; }
    own[s] = x ; }
  /* again, however the team is scheduled, and drawing in a team */
  const int pol[4] = { POL_RR , POL_LOW , POL_HIGH , POL_RRREV } ;
  for( k = 0 ; k < K ; k++ ) for( p = 0 ; p < 4 ; p++ ) { mcomp_config( T , pol[p] ) ; Latt.Nthreads = T ; start( seeds[k] , T ) ; int bad[ 16 ] = { 0 } ;
#pragma omp parallel
    { const int me = omp_get_thread_num( ) ; int q ; for( q = 0 ; q < 200 ; q++ ) if( par_rng_dbl( me ) != ref[k][me][q] ) bad[me] = 1 + q ; }
    for( t = 0 ; t < T ; t++ ) if( bad[t] ) { mc_fail( "irreproducible" , "seed %u thread %d of %d: a second run differs (schedule %d)" , seeds[k] , t , T , p ) ; return ; }
    free_par_rng( ) ; mc_traces( 1 ) ; }
  /* integers and the derived deviates follow the thread's own stream and are finite */
  for( k = 0 ; k < K ; k++ ) { start( seeds[k] , T ) ; double s1 = 0 , s2 = 0 , s4 = 0 , si = 0 ; const int m = 4000 ; for( t = 0 ; t < T ; t++ ) for( i = 0 ; i < m ; i++ ) { const GLU_real g = par_polar( t ) ; const GLU_complex c = par_polar_box( t ) ; const uint32_t u = par_rng_int( t ) ; si += u/4294967296.0 ; s1 += creal( c ) + cimag( c ) ; s2 += creal( c )*creal( c ) + cimag( c )*cimag( c ) ; s4 += g*g ; if( !isfinite( g ) || !isfinite( creal( c ) ) || !isfinite( cimag( c ) ) ) { mc_fail( "gaussian" , "seed %u thread %d: a Gaussian deviate is not finite" , seeds[k] , t ) ; return ; } mc_trans( 1 ) ; }
    const double N = (double)m*T ; if( fabs( s1/N ) > 0.15 || fabs( s2/N - 1 ) > 0.15 || fabs( s4/N - 1 ) > 0.15 || fabs( si/N - 0.5 ) > 0.05 ) { mc_fail( "moments" , "seed %u: the deviates have moments %g %g %g and mean integer %g of 2^32" , seeds[k] , s1/N , s2/N , s4/N , si/N ) ; return ; } free_par_rng( ) ; }
  mc_states( tot ) ; mc_sample( "seed %u, %d threads: %.9g %.9g ..." , seeds[0] , T , ref[0][0][0] , ref[0][T-1][1] ) ;
}

/* histories */
enum { DRAW , DRAWLAST , SAVEA , SAVEB , RESTA , RESTB , RESEED , FRESHA , AGAIN , NOPS } ;
static const char *opn[ NOPS ] = { "draw" , "draw on the last thread" , "save A" , "save B" , "restore A" , "restore B" , "free and reseed" , "free and start from A" , "initialise again" } ;
static int T_ ;
static int runhist( const int *h , int D )
{ int k = 0 , pos[ 16 ] = { 0 } , sk[2] = { -1 , -1 } , sp[2][ 16 ] , t , i , d ;
  start( seeds[0] , T_ ) ;
  for( d = 0 ; d < D ; d++ ) { const int o = h[d] ; mc_trans( 1 ) ; size_t l ;
    switch( o ) {
    case DRAW : for( t = 0 ; t < T_ ; t++ ) for( i = 0 ; i < 3 + 2*t ; i++ ) { if( par_rng_dbl( t ) != ref[k][t][ pos[t]++ ] ) return d+1 ; } break ;
    case DRAWLAST : for( i = 0 ; i < 17 ; i++ ) if( par_rng_dbl( T_-1 ) != ref[k][T_-1][ pos[T_-1]++ ] ) return d+1 ; break ;
    case SAVEA : case SAVEB : write_par_rng_state( o == SAVEA ? "A" : "B" ) ; sk[ o - SAVEA ] = k ; memcpy( sp[ o - SAVEA ] , pos , sizeof( pos ) ) ; break ;
    case RESTA : case RESTB : { const int q = o - RESTA ; mc_capture( ) ; const int st = read_par_rng_state( q ? "B" : "A" ) ; free( mc_captured( &l ) ) ; if( st != GLU_SUCCESS ) return d+1 ; k = sk[q] ; memcpy( pos , sp[q] , sizeof( pos ) ) ; break ; }
    case RESEED : free_par_rng( ) ; start( seeds[1] , T_ ) ; k = 1 ; memset( pos , 0 , sizeof( pos ) ) ; break ;
    case FRESHA : free_par_rng( ) ; mc_capture( ) ; { const int st = initialise_par_rng( "A" ) ; free( mc_captured( &l ) ) ; if( st != GLU_SUCCESS ) return d+1 ; } k = sk[0] ; memcpy( pos , sp[0] , sizeof( pos ) ) ; break ;
    case AGAIN : Latt.Seed[0] = seeds[2] ; mc_capture( ) ; initialise_par_rng( NULL ) ; free( mc_captured( &l ) ) ; break ; /* already running: keeps its state */
    } }
  for( t = T_ ; t-- ; ) for( i = 0 ; i < 25 ; i++ ) if( par_rng_dbl( t ) != ref[k][t][ pos[t]++ ] ) return D+1 ;
  free_par_rng( ) ; return 0 ; }
static void histories( int T , int part , int parts )
{
  setup( T ) ; T_ = T ; if( chdir( mc_scratch( ) ) ) {} ; int k ; for( k = 0 ; k < 2 ; k++ ) reference( k , T , 1200 ) ;
  int D , h[ 8 ] , bad = 0 ; const int max = mc_thorough( ) ? 5 : 4 ; long n = 0 ;
  for( D = 1 ; D <= max && bad < 4 ; D++ ) { long tot = 1 , x ; int i ; for( i = 0 ; i < D ; i++ ) tot *= NOPS ;
    for( x = part ; x < tot && bad < 4 ; x += parts ) { long y = x ; int a = 0 , b = 0 , ok = 1 ; for( i = 0 ; i < D ; i++ ) { h[i] = y%NOPS ; y /= NOPS ; if( h[i] == SAVEA ) a = 1 ; if( h[i] == SAVEB ) b = 1 ; if( ( ( h[i] == RESTA || h[i] == FRESHA ) && !a ) || ( h[i] == RESTB && !b ) ) ok = 0 ; }
      if( !ok ) continue ; n++ ; const int r = runhist( h , D ) ; mc_traces( 1 ) ; if( !( n & 63 ) ) mc_progress( "alive" ) ;
      if( r ) { char m[ 400 ] = "" ; for( i = 0 ; i < D ; i++ ) { strcat( m , i ? ", " : "" ) ; strcat( m , opn[ h[i] ] ) ; } mc_fail( "history" , "%d threads: after \"%s\" the streams do not continue (noticed at step %d)" , T , m , r ) ; bad++ ; free_par_rng( ) ; } } }
  mc_states( n*T ) ; mc_sample( "%d threads: %ld histories of depth up to %d" , T , n , max ) ;
}

/* mixed deviates continue after a restore */
static void mixed( int T )
{
  setup( T ) ; if( chdir( mc_scratch( ) ) ) {} ; int t , i , w ; const uint32_t sd = 99 ; static double a[ 16 ][ 60*20 ] ;
  for( w = 0 ; w < 300 && !mc_nfail( ) ; w += w < 20 ? 1 : 37 ) { start( sd , T ) ; for( t = 0 ; t < T ; t++ ) for( i = 0 ; i < w + t ; i++ ) par_rng_dbl( t ) ;
    write_par_rng_state( "S" ) ; int pass ;
    for( pass = 0 ; pass < 2 ; pass++ ) { for( t = 0 ; t < T ; t++ ) { int n = 0 ; for( i = 0 ; i < 20 ; i++ ) { double v[ 1 + 2 + 1 + 1 + 2*NN ] ; v[0] = par_polar( t ) ; const GLU_complex c = par_polar_box( t ) ; v[1] = creal( c ) ; v[2] = cimag( c ) ; v[3] = par_rng_int( t ) ; v[4] = par_rng_dbl( t ) ; GLU_complex U[ NN ] ; par_generate_NCxNC( U , t ) ; int j ; for( j = 0 ; j < NN ; j++ ) { v[ 5+2*j ] = creal( U[j] ) ; v[ 6+2*j ] = cimag( U[j] ) ; }
          for( j = 0 ; j < 5 + 2*NN ; j++ ) { if( !pass ) a[t][ n++ ] = v[j] ; else if( a[t][ n++ ] != v[j] ) { mc_fail( "mixed" , "%d threads, saved after %d draws: thread %d continues differently" , T , w , t ) ; return ; } mc_trans( 1 ) ; } } }
      if( !pass ) { free_par_rng( ) ; start( sd + 1 , T ) ; size_t l ; mc_capture( ) ; const int st = read_par_rng_state( "S" ) ; free( mc_captured( &l ) ) ; if( st != GLU_SUCCESS ) { mc_fail( "mixed" , "%d threads, saved after %d draws: the state is not accepted back" , T , w ) ; return ; } } }
    free_par_rng( ) ; mc_traces( 1 ) ; mc_states( T ) ; }
}

static char *slurp( const char *f , long *n ) { FILE *p = fopen( f , "rb" ) ; if( !p ) return NULL ; fseek( p , 0 , SEEK_END ) ; *n = ftell( p ) ; rewind( p ) ; char *b = malloc( *n + 1 ) ; if( fread( b , 1 , *n , p ) != (size_t)*n ) {} b[*n] = 0 ; fclose( p ) ; return b ; }
static void spill( const char *f , const char *b , long n ) { FILE *p = fopen( f , "wb" ) ; fwrite( b , 1 , n , p ) ; fclose( p ) ; }
/* a state file that is cut short or whose header is damaged: an error or a new
   sequence that says so, or (if the damage does not matter) the saved state */
static void damaged( int T , int what , int part , int parts )
{
  setup( T ) ; if( chdir( mc_scratch( ) ) ) {} ; int t , i ; long n , x , tried = 0 ; int k = 2 ; reference( 2 , T , 200 ) ;
  start( seeds[3] , T ) ; for( t = 0 ; t < T ; t++ ) for( i = 0 ; i < 5 + t ; i++ ) par_rng_dbl( t ) ; write_par_rng_state( "S" ) ;
  double want[ 16 ][ 20 ] ; for( t = 0 ; t < T ; t++ ) for( i = 0 ; i < 20 ; i++ ) want[t][i] = par_rng_dbl( t ) ; free_par_rng( ) ;
  char *b = slurp( "S" , &n ) ; if( !b ) { mc_fail( "write" , "no state file is written" ) ; return ; } char *hd = strstr( b , "END_HEADER" ) ; if( !hd ) { mc_fail( "write" , "the state file has no header end" ) ; return ; } const long H = hd - b + 11 ;
  const char rep[] = { 0 , ' ' , '\n' , '=' , '9' , '1' , '-' , 'A' , (char)0xff } ; const int nr = sizeof( rep ) ;
  const long tot = what ? H*nr : n ;
  for( x = part ; x < tot && mc_nfail( ) < 4 ; x += parts ) { if( !what && x > H + 40 && x < n - 60 && x%( n > 3000 ? 37 : 1 ) ) continue ;
    char *c = malloc( n ) ; memcpy( c , b , n ) ; long m = n ; char d[ 80 ] ; if( what ) { if( c[ x/nr ] == rep[ x%nr ] ) { free( c ) ; continue ; } c[ x/nr ] = rep[ x%nr ] ; snprintf( d , 80 , "header byte %ld replaced by %d" , x/nr , rep[ x%nr ] ) ; } else { m = x ; snprintf( d , 80 , "cut after %ld of %ld bytes" , x , n ) ; }
    spill( "D" , c , m ) ; free( c ) ; Latt.Seed[0] = seeds[k] ; size_t l ; tried++ ; mc_traces( 1 ) ; mc_trans( 1 ) ; if( !( tried & 31 ) ) mc_progress( "alive" ) ;
    mc_capture( ) ; const int st = initialise_par_rng( "D" ) ; free( mc_captured( &l ) ) ;
    if( st == GLU_SUCCESS ) { int same = 1 , fresh = 1 ; for( t = 0 ; t < T ; t++ ) for( i = 0 ; i < 20 ; i++ ) { const double v = par_rng_dbl( t ) ; if( v != want[t][i] ) same = 0 ; if( v != ref[k][t][i] ) fresh = 0 ; if( !( v >= 0 && v < 1 ) ) same = fresh = 0 ; }
      if( !same && !fresh ) mc_fail( "damaged" , "%d threads, state file %s: accepted, but neither the saved nor a new sequence follows" , T , d ) ;
      if( same && !what ) mc_fail( "damaged" , "%d threads, state file %s: said to be the whole state" , T , d ) ; }
    free_par_rng( ) ; }
  mc_states( tried ) ; mc_sample( "%d threads: %ld damaged files of %ld bytes" , T , tried , n ) ;
}
/* a state of another team size must not be continued silently as this one */
static void teams( void )
{
  int A , B , t , i ; if( chdir( mc_scratch( ) ) ) {} ;
  for( A = 1 ; A <= 8 ; A++ ) for( B = 1 ; B <= 8 ; B++ ) { setup( A ) ; start( seeds[0] , A ) ; for( t = 0 ; t < A ; t++ ) for( i = 0 ; i < 4 ; i++ ) par_rng_dbl( t ) ; write_par_rng_state( "S" ) ; double want[ 16 ][ 4 ] ; for( t = 0 ; t < A ; t++ ) for( i = 0 ; i < 4 ; i++ ) want[t][i] = par_rng_dbl( t ) ; free_par_rng( ) ;
    setup( B ) ; reference( 1 , B , 8 ) ; Latt.Seed[0] = seeds[1] ; size_t l ; mc_capture( ) ; const int st = initialise_par_rng( "S" ) ; free( mc_captured( &l ) ) ; mc_traces( 1 ) ; mc_trans( B ) ; mc_states( 1 ) ;
    if( st == GLU_SUCCESS ) for( t = 0 ; t < B ; t++ ) for( i = 0 ; i < 4 ; i++ ) { const double v = par_rng_dbl( t ) ; if( v != ( A == B ? want[t][i] : ref[1][t][i] ) ) { mc_fail( "teams" , "a state of %d threads read with %d: thread %d does not draw the %s numbers" , A , B , t , A == B ? "saved" : "new sequence's" ) ; return ; } }
    else if( A == B ) { mc_fail( "teams" , "a state of %d threads is not accepted back" , A ) ; return ; }
    free_par_rng( ) ; for( t = 0 ; t < B ; t++ ) free( ref[1][t] ) ; }
  mc_progress( "alive" ) ; mc_sample( "64 pairs of team sizes" ) ;
}
/* the extremes of the generator's own output, reached through crafted states:
   the words of a state file that follow the header are all the state there is */
static void extremes( void )
{
  setup( 1 ) ; if( chdir( mc_scratch( ) ) ) {} ; start( seeds[0] , 1 ) ; write_par_rng_state( "S" ) ; free_par_rng( ) ; long n , w , i ; char *b = slurp( "S" , &n ) ; const long H = strstr( b , "END_HEADER" ) - b + 11 , words = ( n - H )/4 ; long tried = 0 ;
  /* fills, single bits and single words of ones in an all-equal state */
  const uint32_t fill[] = { 0 , 0xffffffffu , 0x7fffffffu , 0x80000000u , 1 , 0xfffffffeu } ; int f , g ;
  for( f = 0 ; f < 6 ; f++ ) for( g = 0 ; g < 6 ; g++ ) for( w = 0 ; w < words && mc_nfail( ) < 3 ; w += words < 64 ? 1 : ( w < 8 || w > words - 10 ) ? 1 : 97 ) {
    uint32_t *s = malloc( n - H + 8 ) ; char *c = malloc( n ) ; memcpy( c , b , n ) ; memcpy( s , b + H , n - H ) ;
    for( i = 0 ; i < words ; i++ ) { uint32_t old ; memcpy( &old , b + H + 4*i , 4 ) ; const uint32_t val = __builtin_bswap32( old ) ; const int counter = i >= words - 2 && val < 4096*2 ; /* a position, not a word of the state */ if( !counter ) s[i] = __builtin_bswap32( i == w ? fill[g] : fill[f] ) ; }
    memcpy( c + H , s , n - H ) ; spill( "D" , c , n ) ; free( c ) ; free( s ) ; size_t l ; mc_capture( ) ; const int st = initialise_par_rng( "D" ) ; free( mc_captured( &l ) ) ; tried++ ; mc_traces( 1 ) ;
    if( st == GLU_SUCCESS ) for( i = 0 ; i < 200 ; i++ ) { const double v = par_rng_dbl( 0 ) ; mc_trans( 1 ) ; if( !( v >= 0 && v < 1 ) ) { mc_fail( "range" , "state of words %08x with word %ld %08x: draw %ld is %.17g" , fill[f] , w , fill[g] , i , v ) ; break ; }
      const GLU_real p = par_polar( 0 ) ; if( !isfinite( p ) ) { mc_fail( "gaussian" , "state of words %08x with word %ld %08x: the Gaussian deviate %ld is %g" , fill[f] , w , fill[g] , i , p ) ; break ; } }
    free_par_rng( ) ; if( !( tried & 31 ) ) mc_progress( "alive" ) ; }
#ifdef XOR_1024_RNG
  /* states of one nonzero word whose product with the multiplier is one of the largest or smallest integers */
  uint64_t inv = 1 ; const uint64_t M = 1181783497276652981ULL ; for( i = 0 ; i < 6 ; i++ ) inv *= 2 - M*inv ;
  for( i = -2100 ; i < 2100 && mc_nfail( ) < 3 ; i++ ) { const uint64_t word = inv*(uint64_t)i ; char *c = malloc( n ) ; memcpy( c , b , n ) ;
    /* undo the xor-shift of the word the generator starts from */
    uint64_t s0 = word ; s0 ^= s0 >> 30 ^ s0 >> 60 ; 
    for( w = 0 ; w < 16 ; w++ ) { int j ; memset( c + H , 0 , 128 ) ; for( j = 0 ; j < 8 ; j++ ) c[ H + 8*w + j ] = s0 >> ( 56 - 8*j ) ; spill( "D" , c , n ) ; size_t l ; mc_capture( ) ; const int st = initialise_par_rng( "D" ) ; free( mc_captured( &l ) ) ; tried++ ; mc_traces( 1 ) ;
      if( st == GLU_SUCCESS ) for( j = 0 ; j < 20 ; j++ ) { const double v = par_rng_dbl( 0 ) ; mc_trans( 1 ) ; if( !( v >= 0 && v < 1 ) ) { mc_fail( "range" , "state with the only word %016llx: draw %d is %.17g" , (unsigned long long)s0 , j , v ) ; break ; } } free_par_rng( ) ; }
    free( c ) ; mc_progress( "alive" ) ; }
#endif
  mc_states( tried ) ; mc_sample( "%ld crafted states of %ld words" , tried , words ) ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C11" , "c11_rng" ) ; mc_timeout( 300 ) ; const int T[5] = { 1 , 2 , 3 , 4 , 8 } ; int i , p ;
  for( i = 0 ; i < 5 ; i++ ) if( mc_begin( "streams of %d threads" , T[i] ) ) { streams( T[i] ) ; mc_end( ) ; }
  for( i = 0 ; i < 4 ; i++ ) for( p = 0 ; p < 2 ; p++ ) if( mc_begin( "histories of %d threads, half %d" , T[i] , p ) ) { histories( T[i] , p , 2 ) ; mc_end( ) ; }
  for( i = 0 ; i < 4 ; i++ ) if( mc_begin( "mixed deviates of %d threads" , T[i] ) ) { mixed( T[i] ) ; mc_end( ) ; }
  for( i = 0 ; i < 3 ; i++ ) for( p = 0 ; p < 2 ; p++ ) { if( mc_begin( "state of %d threads cut short, half %d" , T[i] , p ) ) { damaged( T[i] , 0 , p , 2 ) ; mc_end( ) ; } if( mc_begin( "state of %d threads with a damaged header, half %d" , T[i] , p ) ) { damaged( T[i] , 1 , p , 2 ) ; mc_end( ) ; } }
  if( mc_begin( "states of other team sizes" ) ) { teams( ) ; mc_end( ) ; }
  if( mc_begin( "extreme states" ) ) { extremes( ) ; mc_end( ) ; }
  return mc_finish( ) ;
}
