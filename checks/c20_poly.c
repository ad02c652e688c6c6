/* C20: Polyakov loops and static-potential correlators against the definition. */
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "fx.h"
#include "mc.h"
#include "be.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "SM_wrap.h"
#include "OBS_wrap.h"
#include "POLY.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <math.h>
static cplx loop( const cplx *U , int mu , int start )
{
  cplx s = 0 ; size_t i , n = 0 ; int k ;
  for( i = 0 ; i < fxV ; i++ ) {
    int x[ ND ] ; fx_coord( x , i ) ; if( x[ mu ] != start ) continue ;
    cplx P[ NN ] ; size_t j = i ; m_id( P ) ;
    for( k = 0 ; k < (int)Latt.dims[ mu ] ; k++ ) { m_mul( P , P , L(U,j,mu) ) ; j = fx_up( j , mu ) ; }
    s += m_tr( P ) ; n++ ;
  }
  return s/n ;
}
static void loops( const cplx *U , const char *what )
{
  struct site *lat = fx_lat( U ) ; int mu ; size_t th ; size_t len ; char lab[ 64 ] ;
  double *red = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ;
  #pragma omp parallel
  { size_t m ; for( m = 0 ; m < ND ; m++ ) poly_th( red , lat , m ) ; }
  mc_capture( ) ; gauge( lat ) ; char *o = mc_captured( &len ) ;
  for( mu = 0 ; mu < ND ; mu++ ) {
    const cplx want = loop( U , mu , 0 ) , got = poly( lat , mu ) ; double re = 0 , im = 0 , pr , pi , pm ;
    mc_progress( "%s direction %d" , what , mu ) ; mc_trans( 3 ) ;
    if( !( cabs( got - want ) < 1e-11*( 1 + cabs( want ) ) ) ) mc_fail( "loop" , "%s: the Polyakov loop in direction %d is (%.10g,%.10g), not (%.10g,%.10g)" , what , mu , creal( got ) , cimag( got ) , creal( want ) , cimag( want ) ) ;
    /* the trace does not know where the loop starts */
    if( !( cabs( want - loop( U , mu , Latt.dims[ mu ] - 1 ) ) < 1e-11 ) ) mc_fail( "oracle" , "the reference depends on the starting slice" ) ;
    for( th = 0 ; th < Latt.Nthreads ; th++ ) re += red[ 2*mu + th*CLINE ] , im += red[ 2*mu + 1 + th*CLINE ] ;
    if( !( hypot( re - creal( want ) , im - cimag( want ) ) < 1e-11*( 1 + cabs( want ) ) ) ) mc_fail( "threaded" , "%s: the Polyakov loop in direction %d summed over threads is (%.10g,%.10g), not (%.10g,%.10g)" , what , mu , re , im , creal( want ) , cimag( want ) ) ;
    snprintf( lab , sizeof( lab ) , "[POLY SU(%d) DIR_%d] " , NC , mu ) ; const char *p = strstr( o , lab ) ;
    if( !p || sscanf( p + strlen( lab ) , "( %lf , %lf ) , MODULUS :: %lf" , &pr , &pi , &pm ) != 3 ) { mc_fail( "printed" , "%s: direction %d is not printed" , what , mu ) ; continue ; }
    const double t = 1e-6*( 1e-5 + cabs( want )/NC ) ;
    if( !( fabs( pr - creal( want )/NC ) < t && fabs( pi - cimag( want )/NC ) < t && fabs( pm - cabs( want )/NC ) < t ) ) mc_fail( "printed" , "%s: the loop of direction %d is printed as (%g,%g) modulus %g, its average trace is (%g,%g) modulus %g" , what , mu , pr , pi , pm , creal( want )/NC , cimag( want )/NC , cabs( want )/NC ) ;
  }
  free( o ) ; free( red ) ; mc_traces( 1 ) ;
  if( fx_distlat( lat , U ) != 0 ) mc_fail( "field" , "%s: measuring changed the field" , what ) ;
  free_lat( lat ) ;
}
/* lengths are measured in units set by the smallest extent of the whole lattice */
static int inlist( const int n[ ND ] , int D , int type , size_t mx )
{ size_t small = Latt.dims[0] ; double s = 0 ; int k , all = 1 ; for( k = 1 ; k < ND ; k++ ) if( Latt.dims[k] < small ) small = Latt.dims[k] ; for( k = 0 ; k < D ; k++ ) { const double r = small*(double)n[k]/Latt.dims[k] ; s += r*r ; if( r*r > mx + 1e-9 ) all = 0 ; } return type == HYPERCUBIC_CUT ? all : s <= mx + 1e-9 ; }
static char *only( void )
{ static char nm[ 300 ] ; DIR *d = opendir( "." ) ; struct dirent *e ; int c = 0 ; while( ( e = readdir( d ) ) ) if( e->d_name[0] != '.' ) { snprintf( nm , sizeof( nm ) , "%s" , e->d_name ) ; c++ ; } closedir( d ) ; return c == 1 ? nm : NULL ; }
static void wipe( void ) { DIR *d = opendir( "." ) ; struct dirent *e ; while( ( e = readdir( d ) ) ) if( e->d_name[0] != '.' ) unlink( e->d_name ) ; closedir( d ) ; }
/* all lines of length T from every site */
static cplx *lines( const cplx *U , int T )
{ cplx *P = malloc( fxV*NN*sizeof( cplx ) ) ; size_t i ; int s ; for( i = 0 ; i < fxV ; i++ ) { size_t j = i ; m_id( P + i*NN ) ; for( s = 0 ; s < T ; s++ ) { m_mul( P + i*NN , P + i*NN , L(U,j,ND-1) ) ; j = fx_up( j , ND-1 ) ; } } return P ; }
static void pot( const cplx *U0 , int T , int type , size_t mx , int smear , const char *fk )
{
  char what[ 200 ] ; snprintf( what , sizeof( what ) , "static potential of a %s field, T %d, %s cut at %zu%s" , fk , T , type == PSQ_CUT ? "radial" : "cubic" , mx , smear ? ", smeared" : "" ) ; mc_progress( "%s" , what ) ;
  struct sm_info S ; struct cut_info C ; memset( &S , 0 , sizeof( S ) ) ; memset( &C , 0 , sizeof( C ) ) ; int k ; size_t i , len ;
  S.type = smear ? SM_STOUT : SM_NOSMEARING ; S.dir = ND ; S.smiters = smear ; for( k = 0 ; k < ND-1 ; k++ ) Latt.sm_alpha[k] = 0.3 ;
  C.dir = STATIC_POTENTIAL ; C.type = type ; C.max_mom = mx ; C.max_t = T ; C.angle = 90 ; C.cyl_width = 2 ; strcpy( C.where , "./" ) ;
  if( chdir( mc_scratch( ) ) ) return ; wipe( ) ; mc_capture( ) ;
  struct site *lat = fx_lat( U0 ) ; if( smear ) SM_wrap_struct( lat , S ) ; cplx *U = fx_get( lat ) ; fx_put( lat , U0 ) ;
  const int st = Coul_staticpot( lat , C , S ) ; free( mc_captured( &len ) ) ; mc_traces( 1 ) ;
  if( st != GLU_SUCCESS ) { mc_fail( "status" , "%s: reports failure" , what ) ; goto out0 ; }
  char *nf = only( ) ; bef f ; if( !nf || !be_open( &f , nf ) ) { mc_fail( "file" , "%s: not exactly one output file" , what ) ; goto out0 ; }
  char tag[ 32 ] ; snprintf( tag , sizeof( tag ) , "_T%d_" , T ) ; if( !strstr( nf , tag ) || !strstr( nf , "STATPOT" ) ) mc_fail( "file" , "%s: the output file is called %s" , what , nf ) ;
  const size_t lcu = fxV/Latt.dims[ ND-1 ] ; const uint32_t n = be_u32( &f ) ; uint32_t j ; size_t want = 0 ; int x[ ND ] ;
  for( i = 0 ; i < lcu ; i++ ) { fx_coord( x , i ) ; for( k = 0 ; k < ND-1 ; k++ ) if( x[k] > (int)( Latt.dims[k] >> 1 ) ) x[k] -= Latt.dims[k] ; want += inlist( x , ND-1 , type , mx ) ; }
  if( n != want ) { mc_fail( "list" , "%s: %u separations in the file, %zu satisfy the cut" , what , n , want ) ; goto out0 ; }
  int (*r)[ ND ] = calloc( n + 1 , sizeof( *r ) ) ; char *seen = calloc( fxV , 1 ) ; size_t *sh = malloc( ( n+1 )*lcu*sizeof( size_t ) ) ;
  for( j = 0 ; j < n && !f.bad ; j++ ) {
    if( be_u32( &f ) != ND-1 ) f.bad = 1 ; for( k = 0 ; k < ND-1 ; k++ ) { r[j][k] = (int)be_u32( &f ) ; if( abs( r[j][k] ) > (int)Latt.dims[k] ) f.bad = 1 ; } if( f.bad ) break ;
    for( k = 0 ; k < ND-1 ; k++ ) x[k] = ( r[j][k] + (int)Latt.dims[k] )%(int)Latt.dims[k] ; x[ ND-1 ] = 0 ;
    if( seen[ fx_site( x ) ]++ || !inlist( r[j] , ND-1 , type , mx ) ) { mc_fail( "list" , "%s: separation %u of the file is repeated or beyond the cut" , what , j ) ; goto out ; }
    for( i = 0 ; i < lcu ; i++ ) { fx_coord( x , i ) ; for( k = 0 ; k < ND-1 ; k++ ) x[k] = ( x[k] + r[j][k] + (int)Latt.dims[k] )%(int)Latt.dims[k] ; sh[ j*lcu + i ] = fx_site( x ) ; } }
  if( (int)be_u32( &f ) != T-1 ) { mc_fail( "times" , "%s: the number of times in the file is not %d" , what , T-1 ) ; goto out ; }
  int t , s , w ; const int LT = Latt.dims[ ND-1 ] ;
  for( t = 1 ; t < T && !f.bad ; t++ ) {
    cplx *P = lines( U , t ) ;
    for( w = 0 ; w < 2 && !f.bad ; w++ ) {
      if( be_u32( &f ) != n ) { f.bad = 1 ; break ; }
      for( j = 0 ; j < n && !f.bad ; j++ ) {
        cplx d = 0 ; for( s = 0 ; s < LT ; s++ ) for( i = 0 ; i < lcu ; i++ ) {
          const cplx *a = P + ( sh[ j*lcu + i ] + lcu*s )*NN , *b = P + ( i + lcu*s )*NN ;
          if( w ) d += m_tr( a )*conj( m_tr( b ) ) ; else { cplx p[ NN ] ; m_mulad( p , a , b ) ; d += m_tr( p ) ; } }
        d /= LT ; double re = be_f64( &f ) , im = be_f64( &f ) ; mc_trans( 1 ) ;
        if( f.bad ) break ;
        if( !( hypot( re - creal( d ) , im - cimag( d ) ) <= 1e-9*lcu ) ) { mc_fail( w ? "trtr" : "tr" , "%s: the %s correlator at time %d, separation (%d,%d,%d) is (%.10g,%.10g), its definition gives (%.10g,%.10g)" , what , w ? "product of traces" : "trace" , t , r[j][0] , r[j][1] , ND > 3 ? r[j][2] : 0 , re , im , creal( d ) , cimag( d ) ) ; free( P ) ; goto out ; }
      }
    }
    free( P ) ;
  }
  if( !be_close( &f ) ) mc_fail( "file" , "%s: the output file cannot be decoded from its own lengths" , what ) ;
 out : free( r ) ; free( seen ) ; free( sh ) ;
 out0 : free_lat( lat ) ; free( U ) ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C20" , "c20_poly" ) ; mc_timeout( 800 ) ; attach_GLU( ) ;
  size_t *sh ; const size_t ext[] = { 2 , 3 , 4 , 5 } ;
  int n = fx_shapes( &sh , ext , mc_thorough( ) ? 4 : 3 , ND == 4 ? ( mc_thorough( ) ? 96 : 36 ) : ( mc_thorough( ) ? 80 : 36 ) ) , mu ;
  n = fx_long( &sh , n , 2 , mc_thorough( ) ? 270 : 110 ) ; (void)mu ;
  int s , k , th ;
  static const int kinds[] = { F_COLD , F_CENTER , F_DIAG , F_WEAK , F_MED , F_HOT } ;
  for( s = 0 ; s < n ; s++ ) {
    fx_dims( sh + s*ND ) ; char ds[ 64 ] ; snprintf( ds , sizeof( ds ) , "%s" , fx_dimstr( ) ) ; const int LT = Latt.dims[ ND-1 ] ; fx_undims( ) ;
    for( th = 1 ; th <= 3 ; th += 2 ) if( mc_begin( "Polyakov loops %s threads %d" , ds , th ) ) {
      mcomp_config( th , POL_RR ) ; fx_dims( sh + s*ND ) ; for( k = 0 ; k < 6 ; k++ ) { cplx *U = fx_field( kinds[k] , 50 + k ) ; loops( U , fx_kindname[ kinds[k] ] ) ; mc_states( fxV*ND ) ; mc_distinct( fx_hash( U ) ) ; free( U ) ; }
      if( s == 0 ) mc_sample( "Polyakov loops in every direction on %s" , ds ) ; mc_end( ) ; }
    for( k = 0 ; k < 6 ; k++ ) if( mc_begin( "static potential %s %s" , ds , fx_kindname[ kinds[k] ] ) ) {
      mcomp_config( 1 + k%3 , POL_RR ) ; fx_dims( sh + s*ND ) ; cplx *U = fx_field( kinds[k] , 60 ) ; int T , ty , sm ; size_t m ; static const size_t mxs[] = { 0 , 1 , 2 , 3 , 5 , 100 } ;
      for( T = 1 ; T <= ( LT < 5 ? 3*LT + 2 : LT + 2 ) ; T++ ) for( ty = 0 ; ty < 2 ; ty++ ) for( m = 0 ; m < 6 ; m++ ) { if( !mc_thorough( ) && T != 2 && T != LT + 1 && m != 2 && m != 5 ) continue ; if( T > LT + 2 && ( m != 2 || ty ) ) continue ; pot( U , T , ty ? HYPERCUBIC_CUT : PSQ_CUT , mxs[m] , 0 , fx_kindname[ kinds[k] ] ) ; }
      for( sm = 1 ; sm < 2 ; sm++ ) pot( U , 3 , PSQ_CUT , 5 , sm , fx_kindname[ kinds[k] ] ) ;
      mc_states( fxV ) ; mc_distinct( fx_hash( U ) ) ; free( U ) ; mc_end( ) ; }
  }
  return mc_finish( ) ;
}
