/* C16: momentum and separation lists against their definition, for every cut,
   parameter and lattice shape; with MC_STORED, lists stored by earlier runs. */
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "fx.h"
#include "mc.h"
#include "mcomp.h"
#include "mcenv.h"
#include "geometry.h"
#include "cut_routines.h"
#include "triplet_gen.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <math.h>
static const char *tname[] = { "cubic" , "radial" , "cylinder" , "cylinder and cone" } ;
static const int ttype[] = { HYPERCUBIC_CUT , PSQ_CUT , CYLINDER_CUT , CYLINDER_AND_CONICAL_CUT } ;
/* smallest extent the lengths are measured in, over the first R directions */
static size_t smallest( int R ) { size_t s = Latt.dims[0] ; int k ; for( k = 1 ; k < R ; k++ ) if( Latt.dims[k] < s ) s = Latt.dims[k] ; return s ; }
/* -1 outside, +1 inside, 0 within rounding of the boundary */
static int side( double v , double lim , int exact ) { if( exact && v == lim ) return 1 ; const double e = 1e-9*( 1 + fabs( lim ) ) ; return v < lim - e ? 1 : v > lim + e ? -1 : 0 ; }
static int both( int a , int b ) { return a < b ? a : b ; }
static int either( int a , int b ) { return a > b ? a : b ; }
/* does the integer vector satisfy the cut */
static int passes( const int n[ ND ] , int D , int R , const struct cut_info *C )
{
  const double sm = smallest( R ) ; int k , exact = 1 ; double p2 = 0 , q2 = 0 , q[ ND ] ; int cube = 1 ;
  for( k = 0 ; k < D ; k++ ) {
    const double r = sm/Latt.dims[k] , x = r*n[k] ; if( ldexp( r , 20 ) != floor( ldexp( r , 20 ) ) ) exact = 0 ;
    p2 += x*x ; q[k] = 2*M_PI*n[k]/Latt.dims[k] ;
#ifdef SIN_MOM
    q[k] = 2*sin( q[k]/2 ) ;
#endif
    q2 += q[k]*q[k] ; const double rt = sqrt( (double)C->max_mom ) ; cube = both( cube , side( fabs( x ) , rt , exact && rt == floor( rt ) ) ) ;
  }
  if( C->type == HYPERCUBIC_CUT ) return cube ;
  const int rad = side( p2 , C->max_mom , exact ) ;
  if( C->type == PSQ_CUT || rad < 0 ) return rad ;
  /* distance from the nearest body diagonal (and angle to it) */
  const double w = 2*M_PI*C->cyl_width/sm ; int in = -1 , d ;
  for( d = 0 ; d < 1 << D ; d++ ) {
    double dot = 0 , perp = 0 ; for( k = 0 ; k < D ; k++ ) dot += q[k]*( d >> k & 1 ? 1 : -1 )/sqrt( D ) ;
    for( k = 0 ; k < D ; k++ ) { const double t = q[k] - dot*( d >> k & 1 ? 1 : -1 )/sqrt( D ) ; perp += t*t ; } perp = sqrt( perp ) ;
    int ok = side( perp , w , 0 ) ;
    if( C->type == CYLINDER_AND_CONICAL_CUT && q2 > 1e-20 ) { const double th = atan2( perp , dot ) , lim = C->angle*M_PI/180 ;
      /* exactly on the diagonal lies inside every cone that has an opening */
      ok = both( ok , C->angle > 0 && perp < 1e-12*sqrt( q2 ) && dot > 0 ? 1 : perp < 1e-9*sqrt( q2 ) ? 0 : side( th , lim , 0 ) ) ; }
    else if( C->type == CYLINDER_AND_CONICAL_CUT ) ok = 1 ;
    in = either( in , ok ) ;
  }
  return both( rad , in ) ;
}
static long nlists , nvec ;
static int check( const struct veclist *l , size_t n , int D , int R , const struct cut_info *C , int cs , const char *what )
{
  size_t i , V = 1 , j ; int k , wall = 0 ; for( k = 0 ; k < D ; k++ ) V *= Latt.dims[k] ;
  char *seen = calloc( V , 1 ) ; nlists++ ; int bad = 1 ;
  if( n > V ) { mc_fail( "list" , "%s: %zu vectors, there are only %zu" , what , n , V ) ; goto out ; }
  for( i = 0 ; i < n ; i++ ) {
    size_t s = 0 , st = 1 ; int zb = 0 ;
    for( k = 0 ; k < D ; k++ ) { const int N = Latt.dims[k] , m = l[i].MOM[k] ; 
      if( cs ? !( 2*m > -N && 2*m <= N ) : !( 2*m >= -N && 2*m < N ) ) { mc_fail( "range" , "%s: entry %zu has component %d outside the zone" , what , i , m ) ; goto out ; }
      if( 2*abs( m ) == N ) zb = 1 ; s += st*( ( m + N )%N ) ; st *= N ; }
    for( ; k < ND ; k++ ) if( l[i].MOM[k] != 0 ) { mc_fail( "range" , "%s: entry %zu has a component beyond the %d directions" , what , i , D ) ; goto out ; }
    wall |= zb ;
    if( l[i].idx != s ) { mc_fail( "index" , "%s: entry %zu, vector (%d,%d,%d..), is stored with index %zu, its mode is %zu" , what , i , l[i].MOM[0] , l[i].MOM[1] , l[i].MOM[2] , (size_t)l[i].idx , s ) ; goto out ; }
    if( seen[s]++ ) { mc_fail( "repeat" , "%s: vector (%d,%d,%d..) occurs twice" , what , l[i].MOM[0] , l[i].MOM[1] , l[i].MOM[2] ) ; goto out ; }
    if( passes( l[i].MOM , D , R , C ) < 0 ) { mc_fail( "extra" , "%s: vector (%d,%d,%d..) does not satisfy the cut" , what , l[i].MOM[0] , l[i].MOM[1] , l[i].MOM[2] ) ; goto out ; }
  }
  for( j = 0 ; j < V ; j++ ) if( !seen[j] ) {
    int m[ ND ] ; size_t r = j ; for( k = 0 ; k < ND ; k++ ) { if( k >= D ) { m[k] = 0 ; continue ; } const int N = Latt.dims[k] ; m[k] = r%N ; r /= N ; if( cs ? 2*m[k] > N : 2*m[k] >= N ) m[k] -= N ; }
    if( passes( m , D , R , C ) > 0 ) { mc_fail( "missing" , "%s: vector (%d,%d,%d..) satisfies the cut but is not in the list" , what , m[0] , m[1] , m[2] ) ; goto out ; }
  }
  /* reflection symmetry and the zero in the middle; a vector on the zone boundary has no mirror image */
  if( !cs && !wall ) {
    if( !( n&1 ) ) { mc_fail( "symmetry" , "%s: an even number of vectors" , what ) ; goto out ; }
    for( i = 0 ; i < n ; i++ ) for( k = 0 ; k < D ; k++ ) if( l[i].MOM[k] + l[ n-1-i ].MOM[k] ) { mc_fail( "symmetry" , "%s: entries %zu and %zu are not mirror images" , what , i , n-1-i ) ; goto out ; }
    for( k = 0 ; k < D ; k++ ) if( l[ n/2 ].MOM[k] ) { mc_fail( "symmetry" , "%s: the middle of the list is not the zero vector" , what ) ; goto out ; }
  }
  bad = 0 ; nvec += n ;
 out : free( seen ) ; return bad ;
}
static struct veclist *get( size_t *n , const struct cut_info *C , int D , int R , int cs )
{ size_t len ; mc_capture( ) ; if( cs ) simorb_ratios( R ) ; struct veclist *l = compute_veclist( n , *C , D , cs ? GLU_TRUE : GLU_FALSE ) ; free( mc_captured( &len ) ) ; return l ; }
static const size_t moms[] = { 0 , 1 , 2 , 3 , 4 , 5 , 6 , 8 , 9 , 12 , 16 , 20 , 30 , 1000 } ;
static const double widths[] = { 0.31 , 0.83 , 1.27 , 2.6 } ;
static const size_t angles[] = { 0 , 1 , 17 , 35 , 61 , 90 } ;
static void lists( int t , int cs )
{
  struct cut_info C ; int D , R , iw , ia ; size_t im , n ; char what[ 200 ] ;
  memset( &C , 0 , sizeof( C ) ) ; C.type = ttype[t] ; strcpy( C.where , "./" ) ;
  for( D = ND-1 ; D <= ND ; D++ ) for( R = cs ? D : D ; R <= ( cs ? ND : D ) ; R++ ) for( im = 0 ; im < sizeof( moms )/sizeof( *moms ) ; im++ ) for( iw = 0 ; iw < ( t >= 2 ? 4 : 1 ) ; iw++ ) for( ia = 0 ; ia < ( t == 3 ? 6 : 1 ) ; ia++ ) {
    C.max_mom = moms[im] ; C.cyl_width = t >= 2 ? widths[iw] : 0 ; C.angle = t == 3 ? angles[ia] : 0 ;
    snprintf( what , sizeof( what ) , "%s list, %s cut at %zu in %d directions of %s%s" , cs ? "separation" : "momentum" , tname[t] , C.max_mom , D , fx_dimstr( ) , "" ) ;
    if( t >= 2 ) snprintf( what + strlen( what ) , 60 , ", width %g angle %zu" , C.cyl_width , C.angle ) ;
    mc_progress( "%s" , what ) ; struct veclist *l = get( &n , &C , D , R , cs ) ;
    mc_trans( 1 ) ; if( !l ) { mc_fail( "empty" , "%s: no list, although the zero vector satisfies every cut" , what ) ; return ; }
    const int b = check( l , n , D , R , &C , cs , what ) ; free( l ) ; if( b ) return ;
  }
}
/* the triplets of momenta of equal length that add up to zero */
static void triplets( void )
{
  size_t nn , len ; const size_t sm = smallest( ND ) ; int k , ok = 1 , r[ ND ] ; for( k = 0 ; k < ND ; k++ ) { r[k] = Latt.dims[k]/sm ; if( Latt.dims[k]%sm ) ok = 0 ; }
  if( !ok ) return ;
  size_t mx ; for( mx = 2 ; mx <= 6 && mx < sm*sm/4 + 2 ; mx += 2 ) {
    const int half = ( mx + 1 )/2 ; int *trip = calloc( half + 1 , sizeof( int ) ) ; mc_capture( ) ; const int st = read_trip( trip , mx ) ; free( mc_captured( &len ) ) ; mc_trans( 1 ) ;
    if( st != GLU_SUCCESS ) { mc_fail( "triplets" , "the number of triplets up to %zu on %s is not found" , mx , fx_dimstr( ) ) ; return ; }
    for( nn = 0 ; nn < mx ; nn += 2 ) {
      /* brute force over pairs of integer vectors */
      const int R = (int)floor( sqrt( nn ) ) , W = 2*R + 1 ; long N = 1 , a , b , want = 0 ; for( k = 0 ; k < ND ; k++ ) N *= W ;
      int (*v)[ ND ] = malloc( N*sizeof( *v ) ) ; long m = 0 ;
      for( a = 0 ; a < N ; a++ ) { long q = a ; size_t s = 0 ; for( k = 0 ; k < ND ; k++ ) { v[m][k] = q%W - R ; q /= W ; s += v[m][k]*v[m][k] ; } if( s == nn ) m++ ; }
      for( a = 0 ; a < m ; a++ ) for( b = 0 ; b < m ; b++ ) { size_t s = 0 ; for( k = 0 ; k < ND ; k++ ) s += ( v[a][k] + v[b][k] )*( v[a][k] + v[b][k] ) ; want += s == nn ; }
      free( v ) ; mc_trans( 1 ) ;
      if( trip[ nn/2 ] != want ) { mc_fail( "triplets" , "%d triplets of momenta with p^2 = %zu on %s, there are %ld" , trip[ nn/2 ] , nn , fx_dimstr( ) , want ) ; free( trip ) ; return ; }
    }
    free( trip ) ;
  }
}
#ifdef NOT_CONDOR_MODE
/* ---- stored lists */
static char stored[ 600 ] ;
static int storedfile( void )
{ DIR *d = opendir( HAVE_PREFIX "/Local/Moments" ) ; struct dirent *e ; int c = 0 ; if( !d ) return 0 ; while( ( e = readdir( d ) ) ) if( e->d_name[0] != '.' ) { snprintf( stored , sizeof( stored ) , HAVE_PREFIX "/Local/Moments/%s" , e->d_name ) ; c++ ; } closedir( d ) ; return c ; }
static void wipestore( void ) { while( storedfile( ) ) unlink( stored ) ; }
static void mkstore( void ) { mkdir( HAVE_PREFIX , 0777 ) ; mkdir( HAVE_PREFIX "/Local" , 0777 ) ; mkdir( HAVE_PREFIX "/Local/Moments" , 0777 ) ; mkdir( HAVE_PREFIX "/Local/Wisdom" , 0777 ) ; }
static int samelist( const struct veclist *a , size_t n , const struct veclist *b , size_t m , int D )
{ size_t i ; int k ; if( n != m ) return 0 ; for( i = 0 ; i < n ; i++ ) { if( a[i].idx != b[i].idx ) return 0 ; for( k = 0 ; k < D ; k++ ) if( a[i].MOM[k] != b[i].MOM[k] ) return 0 ; } return 1 ; }
static struct cut_info pick( int i )
{ struct cut_info C ; memset( &C , 0 , sizeof( C ) ) ; strcpy( C.where , "./" ) ; C.type = ttype[ i%4 ] ; C.max_mom = moms[ 1 + ( i/4 )%4 ] ; C.cyl_width = i%4 >= 2 ? widths[ ( i/16 )%2 + 1 ] : 0 ; C.angle = i%4 == 3 ? angles[ 3 + ( i/32 )%2 ] : 0 ; return C ; }
/* history: store A, store B, read A, read B, read A */
static void histories( void )
{
  int a , b , D , cs ; const int NP = 64 ; struct veclist *f[ 64 ][2][2] ; size_t fn[ 64 ][2][2] ;
  for( a = 0 ; a < NP ; a++ ) for( D = 0 ; D < 2 ; D++ ) for( cs = 0 ; cs < 2 ; cs++ ) { struct cut_info C = pick( a ) ; wipestore( ) ; f[a][D][cs] = get( &fn[a][D][cs] , &C , ND-1+D , ND-1+D , cs ) ;
    char what[ 100 ] ; snprintf( what , sizeof( what ) , "stored list %d" , a ) ; if( !f[a][D][cs] || check( f[a][D][cs] , fn[a][D][cs] , ND-1+D , ND-1+D , &C , cs , what ) ) { mc_fail( "fresh" , "a fresh list is wrong" ) ; return ; } }
  int da , db , ca , cb ;
  for( a = 0 ; a < NP ; a++ ) for( b = 0 ; b < NP ; b++ ) for( da = 0 ; da < 2 ; da++ ) for( db = 0 ; db < 2 ; db++ ) for( ca = 0 ; ca < 2 ; ca++ ) for( cb = 0 ; cb < 2 ; cb++ ) {
    if( !mc_thorough( ) && ( a*7 + b + da + db + ca )%5 ) continue ;
    struct cut_info A = pick( a ) , B = pick( b ) ; int step ; wipestore( ) ; mc_traces( 1 ) ;
    for( step = 0 ; step < 5 ; step++ ) {
      const int w = step == 1 || step == 3 , x = w ? b : a , d = w ? db : da , c = w ? cb : ca ; size_t n ; struct veclist *l = get( &n , w ? &B : &A , ND-1+d , ND-1+d , c ) ; mc_trans( 1 ) ;
      if( !l || !samelist( l , n , f[x][d][c] , fn[x][d][c] , ND-1+d ) ) { mc_fail( "history" , "lists %d (%s, %d directions) and %d (%s, %d directions) used in turn on %s: step %d gives another list than a fresh computation" , a , ca ? "separations" : "momenta" , ND-1+da , b , cb ? "separations" : "momenta" , ND-1+db , fx_dimstr( ) , step ) ; free( l ) ; return ; }
      free( l ) ;
    }
  }
}
/* crash points: the run that stores the list stops after every number of bytes */
static void torn( void )
{
  int a , D , cs ;
  for( a = 0 ; a < 8 ; a++ ) for( D = 0 ; D < 2 ; D++ ) for( cs = 0 ; cs < 2 ; cs++ ) {
    struct cut_info C = pick( a ) ; size_t n , m ; wipestore( ) ; struct veclist *f = get( &n , &C , ND-1+D , ND-1+D , cs ) , *l ;
    if( storedfile( ) != 1 ) { mc_fail( "store" , "nothing is stored" ) ; return ; }
    FILE *p = fopen( stored , "rb" ) ; char *b = malloc( 1 << 20 ) ; const size_t len = fread( b , 1 , 1 << 20 , p ) ; fclose( p ) ; size_t cut ;
    for( cut = 0 ; cut <= len ; cut++ ) {
      if( !mc_thorough( ) && cut > 40 && cut + 40 < len && cut%7 ) continue ;
      p = fopen( stored , "wb" ) ; fwrite( b , 1 , cut , p ) ; fclose( p ) ; mc_trans( 1 ) ; mc_progress( "list %d stored up to byte %zu of %zu" , a , cut , len ) ;
      int again ; for( again = 0 ; again < 2 ; again++ ) {
        l = get( &m , &C , ND-1+D , ND-1+D , cs ) ;
        /* refusing the file is fine, a different list is not */
        if( l ? !samelist( l , m , f , n , ND-1+D ) : m != 0 ) { mc_fail( "torn" , "a list of which %zu of %zu bytes were stored before the run was stopped is reused as a list of %zu vectors, there are %zu" , cut , len , m , n ) ; return ; }
        free( l ) ; }
    }
    free( b ) ; free( f ) ;
  }
}
static void nostore( void )
{
  int a ; for( a = 0 ; a < 8 ; a++ ) { struct cut_info C = pick( a ) ; size_t n ; mc_progress( "no directory to store list %d in" , a ) ; struct veclist *l = get( &n , &C , ND , ND , 0 ) ; mc_trans( 1 ) ;
    if( !l || check( l , n , ND , ND , &C , 0 , "list that cannot be stored" ) ) mc_fail( "nostore" , "without a directory to store it in there is no list" ) ; free( l ) ; }
}
/* numbers of triplets stored on one shape and used on another */
static void tripshapes( const size_t *sh , int n )
{
  int i , j ; size_t mx , len ;
  for( i = 0 ; i < n ; i++ ) for( j = 0 ; j < n ; j++ ) for( mx = 2 ; mx <= 6 ; mx += 2 ) {
    int *t[3] , w ; const size_t h = ( mx + 1 )/2 ;
    for( w = 0 ; w < 3 ; w++ ) { t[w] = calloc( h + 1 , sizeof( int ) ) ; if( w != 1 ) wipestore( ) ; fx_dims( sh + ( w ? j : i )*ND ) ; mc_capture( ) ; const int st = read_trip( t[w] , mx ) ; free( mc_captured( &len ) ) ; fx_undims( ) ; mc_trans( 1 ) ; if( st != GLU_SUCCESS ) mc_fail( "triplets" , "the number of triplets is not found" ) ; }
    /* w = 1 used what shape i stored, w = 2 is fresh */
    if( memcmp( t[1] , t[2] , h*sizeof( int ) ) ) { mc_fail( "triplets" , "the triplet numbers of shape %d depend on an earlier run with shape %d" , j , i ) ; return ; }
    for( w = 0 ; w < 3 ; w++ ) free( t[w] ) ;
  }
}
#endif
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C16" , "c16_lists" ) ; mc_timeout( 800 ) ;
  const size_t ext[] = { 4 , 2 , 3 , 5 , 6 , 7 , 8 } ; size_t *sh ; int s , t , cs ;
#ifndef NOT_CONDOR_MODE
  int n = fx_shapes( &sh , ext , mc_thorough( ) ? 7 : 5 , ND == 4 ? ( mc_thorough( ) ? 700 : 240 ) : 210 ) ; n = fx_long( &sh , n , 2 , mc_thorough( ) ? 400 : 200 ) ;
  for( s = 0 ; s < n ; s++ ) {
    fx_dims( sh + s*ND ) ; char ds[ 64 ] ; snprintf( ds , sizeof( ds ) , "%s" , fx_dimstr( ) ) ; fx_undims( ) ;
    for( t = 0 ; t < 4 ; t++ ) if( mc_begin( "lists %s %s" , tname[t] , ds ) ) {
      mcomp_config( 1 + t%3 , POL_RR ) ; fx_dims( sh + s*ND ) ; for( cs = 0 ; cs < 2 ; cs++ ) lists( t , cs ) ; mc_states( nvec ) ; mc_traces( nlists ) ; mc_distinct( mc_hash( &nvec , sizeof( nvec ) , s*4 + t ) ) ; if( s == 0 ) mc_sample( "%ld %s lists with %ld vectors on %s" , nlists , tname[t] , nvec , ds ) ; mc_end( ) ; }
    if( mc_begin( "triplets %s" , ds ) ) { mcomp_config( 2 , POL_RR ) ; fx_dims( sh + s*ND ) ; triplets( ) ; mc_end( ) ; }
  }
#else
  const int n = fx_shapes( &sh , ext , 3 , ND == 4 ? 72 : 36 ) ;
  for( s = 0 ; s < n ; s++ ) {
    fx_dims( sh + s*ND ) ; char ds[ 64 ] ; snprintf( ds , sizeof( ds ) , "%s" , fx_dimstr( ) ) ; fx_undims( ) ;
    if( !mc_thorough( ) && s%3 ) continue ;
    for( t = 0 ; t < 3 ; t++ ) if( mc_begin( "%s %s" , t == 0 ? "stored and reused in turn" : t == 1 ? "stored partly" : "nowhere to store" , ds ) ) {
      mcomp_config( 2 , POL_RR ) ; fx_dims( sh + s*ND ) ; if( chdir( mc_scratch( ) ) ) return 1 ; if( t < 2 ) mkstore( ) ; if( t == 0 ) histories( ) ; else if( t == 1 ) torn( ) ; else nostore( ) ; mc_states( nvec ) ; mc_distinct( mc_hash( &nvec , sizeof( nvec ) , s*4 + t ) ) ; cs = 0 ; (void)cs ; mc_end( ) ; }
  }
  if( mc_begin( "triplet numbers across shapes" ) ) { mcomp_config( 1 , POL_RR ) ; if( chdir( mc_scratch( ) ) ) return 1 ; mkstore( ) ; tripshapes( sh , n ) ; mc_end( ) ; }
#endif
  return mc_finish( ) ;
}
