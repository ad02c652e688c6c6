/* C15: plaquettes, links, field strength, topological charge and everything
   derived from it, against brute force over the sites. */
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "fx.h"
#include "mc.h"
#include "be.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "SM_wrap.h"
#include "OBS_wrap.h"
#include "plaqs_links.h"
#include "clover.h"
#include "Qsusc.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <math.h>
#define QN ( -1./( 64.*M_PI*M_PI ) )
static int bad( double a , double b , double tol ) { return !( fabs( a - b ) <= tol*( 1 + fabs( b ) ) ) ; }
static const char *shown ; 
#define CMP( key , nm , a , b , tol ) do { const double a_ = ( a ) , b_ = ( b ) ; if( bad( a_ , b_ , tol ) ) mc_fail( key , "%s: %s is %.12g, its definition gives %.12g" , shown , nm , a_ , b_ ) ; } while( 0 )
/* number following a label in a text */
static int after( const char *t , const char *label , double *v , int n )
{
  const char *p = strstr( t , label ) ; int k = 0 ; if( !p ) return 0 ; p += strlen( label ) ;
  while( k < n ) { char *e ; while( *p == ' ' || *p == ':' || *p == ',' || *p == '(' || *p == ')' ) p++ ; v[k] = strtod( p , &e ) ; if( e == p ) break ; k++ ; p = e ; }
  return k == n ;
}
static void local( const cplx *U , const char *what )
{
  shown = what ; mc_progress( "%s" , what ) ;
  double a , s , t , x , y , ls = 0 , lt = 0 , mx = -NC ; size_t i ; int mu ; struct site *lat = fx_lat( U ) ; GLU_real m ;
  r_plaqs( &a , &s , &t , U ) ;
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) { const double r = creal( m_tr( L(U,i,mu) ) ) ; if( mu == ND-1 ) lt += r ; else ls += r ; if( r > mx ) mx = r ; }
  const double la = ( ls + lt )/( (double)ND*NC*fxV ) ; ls /= ( ND-1. )*NC*fxV ; lt /= (double)NC*fxV ;
  CMP( "plaquette" , "all_plaquettes" , all_plaquettes( lat , &x , &y ) , a , 1e-11 ) ; CMP( "plaquette" , "all_plaquettes (spatial)" , x , s , 1e-11 ) ; CMP( "plaquette" , "all_plaquettes (temporal)" , y , t , 1e-11 ) ;
  CMP( "plaquette" , "av_plaquette" , av_plaquette( lat ) , a , 1e-11 ) ; CMP( "plaquette" , "s_plaq" , s_plaq( lat ) , s , 1e-11 ) ; CMP( "plaquette" , "t_plaq" , t_plaq( lat ) , t , 1e-11 ) ;
  CMP( "links" , "all_links" , all_links( lat , &x , &y ) , la , 1e-11 ) ; CMP( "links" , "all_links (spatial)" , x , ls , 1e-11 ) ; CMP( "links" , "all_links (temporal)" , y , lt , 1e-11 ) ;
  CMP( "links" , "links" , links( lat ) , la , 1e-11 ) ; CMP( "links" , "s_links" , s_links( lat ) , ls , 1e-11 ) ; CMP( "links" , "t_links" , t_links( lat ) , lt , 1e-11 ) ;
  CMP( "links" , "indivlinks" , indivlinks( lat , &m ) , la , 1e-11 ) ; CMP( "links" , "the largest link trace" , m , mx , 1e-11 ) ;
  /* thread-parallel forms */
  double *red = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) , GG , Q , *qx = malloc( fxV*sizeof( double ) ) ; size_t th ;
  r_GGQ( &GG , &Q , qx , U ) ;
  #pragma omp parallel
  { av_plaquette_th( red , lat ) ; }
  for( x = 0 , th = 0 ; th < Latt.Nthreads ; th++ ) x += red[ 3 + CLINE*th ] ;
  CMP( "plaquette" , "av_plaquette_th" , 2*x/( (double)NC*ND*( ND-1 )*fxV ) , a , 1e-11 ) ;
  memset( red , 0 , CLINE*Latt.Nthreads*sizeof( double ) ) ;
  #pragma omp parallel
  { compute_Gmunu_th( red , lat ) ; }
  for( x = y = 0 , th = 0 ; th < Latt.Nthreads ; th++ ) x += red[ CLINE*th ] , y += red[ 1 + CLINE*th ] ;
  CMP( "fieldstrength" , "the sum of the squared field strength" , x , GG , 1e-10 ) ; CMP( "fieldstrength" , "the sum of the charge density" , y , Q , 1e-10*( 1 + sqrt( fxV ) ) ) ;
  free( red ) ;
  GLU_complex *q = malloc( fxV*sizeof( GLU_complex ) ) ; compute_Gmunu_array( q , lat ) ;
  for( i = 0 ; i < fxV ; i++ ) if( bad( creal( q[i] ) , qx[i] , 1e-10 ) || fabs( cimag( q[i] ) ) > 1e-10 ) { mc_fail( "density" , "%s: the charge density at site %zu is (%g,%g), not %g" , what , i , creal( q[i] ) , cimag( q[i] ) , qx[i] ) ; break ; }
  free( q ) ; free( qx ) ; mc_trans( 15 ) ;
  if( fx_distlat( lat , U ) != 0 ) mc_fail( "field" , "%s: measuring changed the field" , what ) ;
  /* what is printed */
  mc_capture( ) ; gauge( lat ) ; size_t len ; char *o = mc_captured( &len ) , lab[ 64 ] ; double v[3] ;
#define PR( fmt , val ) do { snprintf( lab , sizeof( lab ) , fmt , NC ) ; if( !after( o , lab , v , 1 ) ) mc_fail( "printed" , "%s: %s is not printed" , what , lab ) ; else CMP( "printed" , lab , v[0] , val , 1e-11 ) ; } while( 0 )
  PR( "[PLAQS SU(%d)]  " , a ) ; PR( "[PLAQS SU(%d) spatial]" , s ) ; PR( "[PLAQS SU(%d) temporal]" , t ) ; PR( "[LINKS SU(%d)]  " , la ) ; PR( "[LINKS SU(%d) spatial]" , ls ) ; PR( "[LINKS SU(%d) temporal]" , lt ) ;
  mc_trans( 1 ) ; mc_traces( 1 ) ; free( o ) ; free_lat( lat ) ;
}
/* the vectors of the configuration-space list, in site order */
static void vec( int n[ ND ] , size_t i , int D ) { int k ; fx_coord( n , i ) ; for( k = 0 ; k < ND ; k++ ) { if( k >= D ) n[k] = 0 ; else if( n[k] > (int)( Latt.dims[k] >> 1 ) ) n[k] -= Latt.dims[k] ; } }
static int inlist( const int n[ ND ] , int D , size_t mx )
{ size_t small = Latt.dims[0] ; double s = 0 ; int k ; for( k = 1 ; k < D ; k++ ) if( Latt.dims[k] < small ) small = Latt.dims[k] ; for( k = 0 ; k < D ; k++ ) { const double r = small*(double)n[k]/Latt.dims[k] ; s += r*r ; } return s <= mx + 1e-9 ; }
static char *file( const char *suffix , const char *mid )
{ static char nm[ 300 ] ; DIR *d = opendir( "." ) ; struct dirent *e ; nm[0] = 0 ; int c = 0 ;
  while( ( e = readdir( d ) ) ) { const size_t a = strlen( e->d_name ) , b = strlen( suffix ) ; if( a >= b && !strcmp( e->d_name + a - b , suffix ) && ( !mid || strstr( e->d_name , mid ) ) ) { snprintf( nm , sizeof( nm ) , "%s" , e->d_name ) ; c++ ; } }
  closedir( d ) ; return c == 1 ? nm : NULL ; }
static void wipe( void ) { DIR *d = opendir( "." ) ; struct dirent *e ; while( ( e = readdir( d ) ) ) if( e->d_name[0] != '.' ) unlink( e->d_name ) ; closedir( d ) ; }
static double **density( const cplx *U , struct sm_info S , int n )
{
  double **q = malloc( n*sizeof( double* ) ) ; struct site *lat = fx_lat( U ) ; int m ;
  for( m = 0 ; m < n ; m++ ) { if( m ) SM_wrap_struct( lat , S ) ; cplx *W = fx_get( lat ) ; double a , b ; q[m] = malloc( fxV*sizeof( double ) ) ; r_GGQ( &a , &b , q[m] , W ) ; size_t i ; for( i = 0 ; i < fxV ; i++ ) q[m][i] *= QN ; free( W ) ; }
  free_lat( lat ) ; return q ;
}
static double corr( const double *q , const int r[ ND ] )
{ double s = 0 ; size_t i ; int k ; for( i = 0 ; i < fxV ; i++ ) { int x[ ND ] ; fx_coord( x , i ) ; for( k = 0 ; k < ND ; k++ ) x[k] = ( x[k] + r[k] + 2*(int)Latt.dims[k] )%(int)Latt.dims[k] ; s += q[i]*q[ fx_site( x ) ] ; } return s ; }
static const char *mname[] = { "susceptibility" , "correlator" , "moments" } ;
static const int mdir[] = { TOPOLOGICAL_SUSCEPTIBILITY , TOPOLOGICAL_CORRELATOR , TOPOLOGICAL_MOMENTS } ;
static void derived( const cplx *U , int mode , int nmeas , int smear , size_t mx , const char *fk )
{
  static char what[ 200 ] ; snprintf( what , sizeof( what ) , "topological %s of a %s field, %d measurements, %s, separations up to %zu" , mname[ mode ] , fk , nmeas , smear ? "smeared between" : "no smearing" , mx ) ; shown = what ; mc_progress( "%s" , what ) ;
  struct sm_info S ; struct cut_info C ; memset( &S , 0 , sizeof( S ) ) ; memset( &C , 0 , sizeof( C ) ) ; int k , m , mu ; size_t i ;
  S.type = smear ? SM_STOUT : SM_NOSMEARING ; S.dir = ND ; S.smiters = smear ; for( k = 0 ; k < ND-1 ; k++ ) Latt.sm_alpha[k] = 0.3 ;
  C.dir = mdir[ mode ] ; C.type = PSQ_CUT ; C.max_mom = mx ; C.max_t = nmeas ; C.angle = 90 ; C.cyl_width = 2 ; strcpy( C.where , "./" ) ;
  if( chdir( mc_scratch( ) ) ) return ; wipe( ) ; mc_capture( ) ;
  double **q = density( U , S , nmeas ) ; free( mc_captured( &i ) ) ;
  struct site *lat = fx_lat( U ) ; mc_capture( ) ; const int st = compute_Qsusc_step( lat , C , S ) ; size_t len ; char *o = mc_captured( &len ) ; free_lat( lat ) ;
  if( st != GLU_SUCCESS ) { mc_fail( "status" , "%s: reports failure" , what ) ; return ; }
  mc_traces( 1 ) ; double qq = 0 ; 
  for( m = ( mode == 0 ? 0 : 1 ) ; m < nmeas ; m++ ) for( i = 0 ; i < fxV ; i++ ) qq += q[m][i]*q[m][i] ;
  const double tol = 1e-9*( 1e-4 + qq ) ; 
#define ABS( key , nm , a , b ) do { const double a_ = ( a ) , b_ = ( b ) ; if( !( fabs( a_ - b_ ) <= tol + 1e-9*fabs( b_ ) ) ) { mc_fail( key , "%s: %s is %.12g, its definition gives %.12g" , what , nm , a_ , b_ ) ; goto out ; } } while( 0 )
  const char *po = o ; bef f ; char sfx[ 64 ] , nm[ 120 ] ; f.d = NULL ;
  if( mode < 2 ) for( m = mode == 0 ? 0 : 1 ; m < nmeas ; m++ ) {
    double sum = 0 , sq = 0 ; for( i = 0 ; i < fxV ; i++ ) sum += q[m][i] , sq += q[m][i]*q[m][i] ;
    for( mu = 0 ; mu < ( mode == 0 ? ND : 1 ) ; mu++ ) {
      double v[4] ; po = strstr( po , "[QTOP] Q " ) ; if( !po || !after( po , "[QTOP] Q " , v , mode ? 4 : 3 ) ) { mc_fail( "printed" , "%s: measurement %d is not printed" , what , m ) ; goto out ; } po += 8 ;
      if( v[0] != m ) { mc_fail( "printed" , "%s: measurement %d is printed as number %g" , what , m , v[0] ) ; goto out ; }
      ABS( "printed" , "the printed charge" , v[1] , sum ) ; ABS( "printed" , "the printed squared charge" , v[2] , sum*sum ) ; if( mode ) ABS( "printed" , "the printed sum of squares" , v[3] , sq ) ;
      if( mode == 0 ) {
        const int LT = Latt.dims[ mu ] ; int T1 , T0 , t ;
        snprintf( sfx , sizeof( sfx ) , ".m%d.tcorr_d%d" , m , mu ) ; char *nf = file( sfx , NULL ) ; if( !nf || !be_open( &f , nf ) ) { mc_fail( "file" , "%s: no file for measurement %d direction %d" , what , m , mu ) ; goto out ; }
        if( (int)be_u32( &f ) != LT ) f.bad = 1 ; for( t = 0 ; t < LT ; t++ ) if( (int)be_u32( &f ) != t ) f.bad = 1 ; if( (int)be_u32( &f ) != LT ) f.bad = 1 ;
        double *qt = calloc( LT , sizeof( double ) ) ; for( i = 0 ; i < fxV ; i++ ) { int x[ ND ] ; fx_coord( x , i ) ; qt[ x[ mu ] ] += q[m][i] ; }
        for( T1 = 1 ; T1 <= LT && !f.bad ; T1++ ) {
          double d = 0 ; for( T0 = 0 ; T0 < LT ; T0++ ) { double s = 0 ; for( t = 0 ; t < T1 ; t++ ) s += qt[ ( T0 + t )%LT ] ; d += s*s/LT ; }
          const double got = be_f64( &f ) ; snprintf( nm , sizeof( nm ) , "the slab of length %d in direction %d of measurement %d" , T1 , mu , m ) ; ABS( "slab" , nm , got , d ) ; mc_trans( 1 ) ;
          snprintf( nm , sizeof( nm ) , "[QSUSC] SLAB_%d %d " , mu , T1 ) ; double w ; if( !after( po , nm , &w , 1 ) ) { mc_fail( "printed" , "%s: %s is not printed" , what , nm ) ; goto out ; } ABS( "printed" , "a printed slab" , w , d ) ;
        }
        free( qt ) ; if( !be_close( &f ) ) { mc_fail( "file" , "%s: the file of direction %d cannot be decoded" , what , mu ) ; goto out ; }
      } else {
        snprintf( sfx , sizeof( sfx ) , "m%d" , m ) ; char *nf = file( sfx , NULL ) ; if( !nf || !be_open( &f , nf ) ) { mc_fail( "file" , "%s: no file for measurement %d" , what , m ) ; goto out ; }
        const uint32_t n = be_u32( &f ) ; size_t want = 0 ; uint32_t j ; int x[ ND ] ; for( i = 0 ; i < fxV ; i++ ) { vec( x , i , ND ) ; want += inlist( x , ND , mx ) ; }
        if( n != want ) { mc_fail( "list" , "%s: %u separations in the file, %zu satisfy the cut" , what , n , want ) ; goto out ; }
        int (*r)[ ND ] = malloc( ( n + 1 )*sizeof( *r ) ) ; char *seen = calloc( fxV , 1 ) ;
        for( j = 0 ; j < n && !f.bad ; j++ ) {
          if( be_u32( &f ) != ND ) f.bad = 1 ; for( k = 0 ; k < ND ; k++ ) r[j][k] = (int)be_u32( &f ) ; if( f.bad ) break ;
          for( k = 0 ; k < ND ; k++ ) x[k] = ( r[j][k] + 2*(int)Latt.dims[k] )%(int)Latt.dims[k] ; 
          for( k = 0 ; k < ND ; k++ ) if( x[k] < 0 ) f.bad = 1 ; if( f.bad ) break ;
          if( seen[ fx_site( x ) ]++ || !inlist( r[j] , ND , mx ) ) { mc_fail( "list" , "%s: separation %u of the file is repeated or beyond the cut" , what , j ) ; goto out ; } }
        if( be_u32( &f ) != n ) f.bad = 1 ;
        for( j = 0 ; j < n && !f.bad ; j++ ) { const double got = be_f64( &f ) ; snprintf( nm , sizeof( nm ) , "the correlator at separation %u of measurement %d" , j , m ) ; ABS( "correlator" , nm , got , corr( q[m] , r[j] ) ) ; mc_trans( 1 ) ; }
        free( r ) ; free( seen ) ; if( !be_close( &f ) ) { mc_fail( "file" , "%s: the correlator file cannot be decoded" , what ) ; goto out ; }
        /* slice sums of the correlator, and their sum: the squared charge */
        snprintf( sfx , sizeof( sfx ) , "m%d.tcorr" , m ) ; nf = file( sfx , NULL ) ; const int LT = Latt.dims[ ND-1 ] ; int t ; if( !nf || !be_open( &f , nf ) ) { mc_fail( "file" , "%s: no temporal file for measurement %d" , what , m ) ; goto out ; }
        if( (int)be_u32( &f ) != LT ) f.bad = 1 ; for( t = 0 ; t < LT ; t++ ) if( (int)be_u32( &f ) != t ) f.bad = 1 ; if( (int)be_u32( &f ) != LT ) f.bad = 1 ;
        double tot = 0 ; double *qt = calloc( LT , sizeof( double ) ) ; for( i = 0 ; i < fxV ; i++ ) { fx_coord( x , i ) ; qt[ x[ ND-1 ] ] += q[m][i] ; }
        for( t = 0 ; t < LT && !f.bad ; t++ ) { const double got = be_f64( &f ) ; double d = 0 ; for( k = 0 ; k < LT ; k++ ) d += qt[k]*qt[ ( k+t )%LT ] ; tot += got ; snprintf( nm , sizeof( nm ) , "the temporal correlator at %d of measurement %d" , t , m ) ; ABS( "tcorr" , nm , got , d ) ; mc_trans( 1 ) ; }
        ABS( "tcorr" , "the sum of the temporal correlator" , tot , sum*sum ) ; free( qt ) ; if( !be_close( &f ) ) { mc_fail( "file" , "%s: the temporal file cannot be decoded" , what ) ; goto out ; }
      }
    }
  } else for( mu = 0 ; mu < ND ; mu++ ) for( k = 0 ; k < 2 ; k++ ) {
    snprintf( sfx , sizeof( sfx ) , "%smoment_d%d.%zu.bin" , k ? "Q2" : "Q" , mu , Latt.flow ) ; if( !be_open( &f , sfx ) ) { mc_fail( "file" , "%s: no file %s" , what , sfx ) ; goto out ; }
    if( (int)be_u32( &f ) != nmeas-1 ) f.bad = 1 ;
    for( m = 1 ; m < nmeas && !f.bad ; m++ ) {
      if( be_u32( &f ) != 12 ) f.bad = 1 ; int n , t ; const int LT = Latt.dims[ mu ] , h = ( LT-1 )/2 ; double *qt = calloc( LT , sizeof( double ) ) , *ct = calloc( LT , sizeof( double ) ) ;
      for( i = 0 ; i < fxV ; i++ ) { int x[ ND ] ; fx_coord( x , i ) ; qt[ x[ mu ] ] += q[m][i] ; }
      for( t = 0 ; t < LT ; t++ ) for( n = 0 ; n < LT ; n++ ) ct[t] += qt[n]*qt[ ( n+t )%LT ] ;
      double fac = 1 ;
      /* the slice at half the extent has no sign and is not part of the moments */
      for( n = 0 ; n < 12 && !f.bad ; n++ ) {
        double s = 0 , sc = 0 ; if( n ) fac *= n ; for( t = -h ; t <= h ; t++ ) { const double x = ( k ? ct : qt )[ ( t + LT )%LT ]*pow( t , n ) ; s += x ; sc += fabs( pow( t , n ) ) ; }
        s *= ( n&2 ? -1 : 1 )/fac ; const double got = be_f64( &f ) ;
        if( !( fabs( got - s ) <= 1e-9*fabs( s ) + tol*sc/fac ) ) { mc_fail( "moment" , "%s: moment %d of %s in direction %d, measurement %d, is %.12g, its definition gives %.12g" , what , n , k ? "the correlator" : "the charge" , mu , m , got , s ) ; goto out ; } mc_trans( 1 ) ;
      }
      free( qt ) ; free( ct ) ;
    }
    if( !be_close( &f ) ) { mc_fail( "file" , "%s: %s cannot be decoded" , what , sfx ) ; goto out ; }
  }
 out :
  for( m = 0 ; m < nmeas ; m++ ) free( q[m] ) ; free( q ) ; free( o ) ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C15" , "c15_topology" ) ; mc_timeout( 800 ) ; attach_GLU( ) ;
  size_t *sh ; const size_t ext[] = { 2 , 3 , 4 , 5 } ;
  int n = fx_shapes( &sh , ext , mc_thorough( ) ? 4 : 3 , ND == 4 ? ( mc_thorough( ) ? 96 : 36 ) : ( mc_thorough( ) ? 80 : 36 ) ) , mu ;
  /* one long direction */
  sh = realloc( sh , ( n + ND )*ND*sizeof( size_t ) ) ; for( mu = 0 ; mu < ND ; mu++ , n++ ) { int j ; for( j = 0 ; j < ND ; j++ ) sh[ n*ND + j ] = j == mu ? ( 19 ) + mu%2 : 2 ; }
  int s , k , mode , th ;
  static const int kinds[] = { F_COLD , F_CENTER , F_DIAG , F_WEAK , F_MED , F_HOT } ;
  for( s = 0 ; s < n ; s++ ) {
    fx_dims( sh + s*ND ) ; char ds[ 64 ] ; snprintf( ds , sizeof( ds ) , "%s" , fx_dimstr( ) ) ; fx_undims( ) ;
    for( th = 1 ; th <= 3 ; th += 2 ) if( mc_begin( "plaquettes, links and charge density %s threads %d" , ds , th ) ) {
      mcomp_config( th , POL_RR ) ; fx_dims( sh + s*ND ) ; for( k = 0 ; k < 6 ; k++ ) { cplx *U = fx_field( kinds[k] , 70 + k ) ; local( U , fx_kindname[ kinds[k] ] ) ; mc_states( fxV*ND ) ; mc_distinct( fx_hash( U ) ) ; free( U ) ; }
      { cplx *U = fx_field( F_COLD , 1 ) ; size_t j ; for( j = 0 ; j < fxV*ND ; j++ ) m_scale( U + j*NN , cexp( 2*M_PI*I*( NC/2 )/NC ) ) ; local( U , "constant centre element" ) ; free( U ) ; }
      if( s == 0 ) mc_sample( "plaquettes, links, field strength and charge density on %s" , ds ) ;
      mc_end( ) ; }
    for( mode = 0 ; mode < 3 ; mode++ ) for( k = 0 ; k < ( mc_thorough( ) ? 6 : 3 ) ; k++ ) { static const int kk[] = { F_MED , F_HOT , F_WEAK , F_DIAG , F_COLD , F_CENTER } ;
      if( mc_begin( "topological %s %s %s" , mname[ mode ] , ds , fx_kindname[ kk[k] ] ) ) {
        mcomp_config( 2 , POL_RR ) ; fx_dims( sh + s*ND ) ; cplx *U = fx_field( kk[k] , 90 ) ; int nm , sm ; size_t mx ;
        static const size_t mxs[] = { 0 , 1 , 3 , 100 } ; 
        for( nm = 2 ; nm <= 3 ; nm++ ) for( sm = 0 ; sm < 2 ; sm++ ) for( mx = 0 ; mx < ( mode == 1 ? 4 : 1 ) ; mx++ ) derived( U , mode , nm , sm , mxs[ mx ] , fx_kindname[ kk[k] ] ) ;
        mc_states( fxV ) ; mc_distinct( fx_hash( U ) ) ; free( U ) ; mc_end( ) ; } }
  }
  return mc_finish( ) ;
}
