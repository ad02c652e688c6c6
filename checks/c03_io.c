/* C03: every storage format, shape, field, memory answer and team size: written
   bytes against an independent decoder, read links against the originals, and
   all short histories of writes and reads in one process */
#include "fx.h"
#include "fmt.h"
#include "mc.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include "GLUlib_wrap.h"
#include "GLU_malloc.h"
#include "writers.h"

#define PLENTY (1LL<<40)
#define SCARCE ((long long)( 1.02*( (double)fxV*ND*( NN*16. + 8 ) ) ))  /* the gauge field itself just fits */
static char path[ 400 ] ;

static void scramble_latt( void ) { int m ; for( m = 0 ; m < ND ; m++ ) Latt.dims[m] = 3 + m ; Latt.flow = 77 ; Latt.Volume = 5 ; Latt.Lcu = 1 ; }

/* read the file with the library and compare with what was stored */
static void readback( fmt_t f , const cplx *W , const size_t *dims , size_t flow , double tol , const char *what )
{
  struct head_data H ; int m ;
  scramble_latt( ) ;
  if( f.head == JLQCD_HEADER ) for( m = 0 ; m < ND ; m++ ) Latt.dims[m] = dims[m] ;
  Latt.head = f.head ;
  memset( &H , 0x6b , sizeof( H ) ) ;
  struct site *r = read_file( &H , path ) ;
  mc_trans( 1 ) ;
  if( !r ) { mc_fail( "read-rejected" , "%s: %s: reading a good file failed" , what , fmt_name( f ) ) ; for( m = 0 ; m < ND ; m++ ) Latt.dims[m] = dims[m] ; fx_dims( dims ) ; return ; }
  for( m = 0 ; m < ND ; m++ ) if( Latt.dims[m] != dims[m] ) { mc_fail( "read-dims" , "%s: %s: dimension %d read as %zu" , what , fmt_name( f ) , m , Latt.dims[m] ) ; fx_dims( dims ) ; return ; }
  if( Latt.Volume != fxV ) mc_fail( "read-dims" , "volume %zu" , Latt.Volume ) ;
  if( f.head == NERSC_HEADER && Latt.flow != flow ) mc_fail( "read-flow" , "%s: %s: configuration number %zu read as %zu" , what , fmt_name( f ) , flow , Latt.flow ) ;
  double e = fx_distlat( r , W ) ;
  if( !( e <= tol ) ) mc_fail( "read-links" , "%s: %s: links differ by %g (allowed %g)" , what , fmt_name( f ) , e , tol ) ;
  free_lat( r ) ;
}
static double tol_of( fmt_t f , const cplx *U )
{
  if( f.store == OUTPUT_SMALL && U == NULL ) return f.dbl ? 1e-13 : 1e-6 ; /* unit links */
  if( f.store == OUTPUT_SMALL ) {
    /* the eight-parameter form loses accuracy with |u01|^2+|u02|^2 and the other square roots */
    size_t i ; double worst = 0 ; int m ;
    for( i = 0 ; i < fxV ; i++ ) for( m = 0 ; m < ND ; m++ ) {
      const cplx *u = L( U , i , m ) ; double n = cabs( u[1] )*cabs( u[1] ) , q = cabs( u[0] ) ;
#if NC == 3
      n += cabs( u[2] )*cabs( u[2] ) ; if( cabs( u[6] ) < q ) q = cabs( u[6] ) ;
      double s = 1/( n*( q > 1e-8 ? q : 1e-8 ) ) ;
#else
      (void)n ; double s = 1/( q > 1e-8 ? q : 1e-8 ) ;
#endif
      if( s > worst ) worst = s ;
    }
    return ( f.dbl ? 2e-15 : 1e-6 )*10*worst ;
  }
  if( !f.dbl ) return 2e-6 ;
  if( fmt_reunits( f ) || f.store == OUTPUT_GAUGE ) return 1e-13 ;
  return 0 ;
}
static int storable( fmt_t f , const cplx *U ) /* the eight-parameter form is singular on some links */
{
  if( f.head == CERN_HEADER ) { int m ; for( m = 0 ; m < ND ; m++ ) if( Latt.dims[m] & 1 ) return 0 ; }
  if( f.store != OUTPUT_SMALL ) return 1 ;
  return tol_of( f , U ) < ( f.dbl ? 1e-9 : 0.01 ) ;
}
static int is_cold( const cplx *U ) { cplx id[ NN ] ; size_t i ; m_id( id ) ; for( i = 0 ; i < fxV*ND ; i++ ) if( m_dist( U + i*NN , id ) != 0 ) return 0 ; return 1 ; }

static void write_and_check( fmt_t f , GLU_output ty , const cplx *U , const size_t *dims , size_t flow , const char *what , uint64_t *hash )
{
  size_t n ; fmt_file d ;
  struct site *lat = fx_lat( U ) ;
  unlink( path ) ;
  Latt.flow = flow ; Latt.head = f.head ;
  int r = write_configuration( lat , path , ty , "some details" ) ;
  mc_trans( 1 ) ;
  if( f.head == CERN_HEADER && !storable( f , U ) ) {
    if( r != GLU_FAILURE ) mc_fail( "cern-odd" , "%s: a CERN file of an odd lattice was written as if it were possible" , what ) ;
    if( access( path , F_OK ) == 0 ) mc_fail( "cern-odd" , "%s: a refused CERN write leaves a file" , what ) ;
    free_lat( lat ) ; return ;
  }
  if( r != GLU_SUCCESS ) { mc_fail( "write-failed" , "%s: %s: write_configuration returned %d" , what , fmt_name( f ) , r ) ; return ; }
  double e = fx_distlat( lat , U ) ;
  if( !( e <= 1e-13 ) ) mc_fail( "write-changes" , "%s: %s: writing changed the field by %g" , what , fmt_name( f ) , e ) ;
  cplx *W = fx_get( lat ) ;
  free_lat( lat ) ;
  unsigned char *b = fmt_slurp( path , &n ) ;
  if( !b ) { mc_fail( "write-failed" , "%s: no file" , what ) ; return ; }
  fmt_decode( &d , f , b , n ) ;
  if( d.err[0] ) mc_fail( "file" , "%s: %s: %s" , what , fmt_name( f ) , d.err ) ;
  const int sm = f.store == OUTPUT_SMALL && !is_cold( U ) ;
  if( d.U ) {
    double t = sm ? tol_of( f , U ) : f.store == OUTPUT_GAUGE ? 1e-13 : ( NC == 2 && f.head == HIREP_HEADER ) ? 1e-14 : 0 ; e = fx_dist( d.U , W ) ;
    if( !( e <= t ) ) mc_fail( "file-links" , "%s: %s: links in the file differ by %g" , what , fmt_name( f ) , e ) ;
    if( d.has_plaq && !fx_close( d.plaq , fmt_plaq( W ) , 1e-12 ) ) mc_fail( "file-plaq" , "%s: %s: plaquette %.15g recorded, field has %.15g" , what , fmt_name( f ) , d.plaq , fmt_plaq( W ) ) ;
    if( d.has_trace && !fx_close( d.trace , fmt_trace( W ) , 1e-12 ) ) mc_fail( "file-trace" , "%s: %s: trace %.15g recorded, field has %.15g" , what , fmt_name( f ) , d.trace , fmt_trace( W ) ) ;
    if( d.has_flow && d.flow != flow ) mc_fail( "file-flow" , "%s: %s: number %zu recorded" , what , fmt_name( f ) , d.flow ) ;
    *hash = mc_hash( b + d.hdr , d.payload , 0 ) ;
  }
  free( b ) ;
  readback( f , W , dims , flow , sm ? tol_of( f , U ) : tol_of( f , is_cold( U ) && f.store == OUTPUT_SMALL ? NULL : W ) , what ) ;
  free( W ) ; if( d.U ) free( d.U ) ;
}

/* histories: operations on one small lattice */
static fmt_t wf[ 16 ] , af[ 40 ] ; static GLU_output wty[ 16 ] ; static int nw , na ;
static void history( const int *ops , int n , const size_t *dims )
{
  int k ;
  fx_dims( dims ) ;
  for( k = 0 ; k < n ; k++ ) {
    int o = ops[k] ;
    cplx *U = fx_field( F_HOT , 100 + k ) ;
    char nm[ 64 ] ; sprintf( nm , "operation %d of the history" , k+1 ) ;
    mcenv_membytes = ( k & 1 ) ? SCARCE : PLENTY ;
    if( o < nw ) { uint64_t h ; if( storable( wf[o] , U ) ) write_and_check( wf[o] , wty[o] , U , dims , 10 + k , nm , &h ) ; }
    else if( o < nw + na ) {
      fmt_t f = af[ o - nw ] ; size_t len , po , pl ;
      if( storable( f , U ) ) {
	unsigned char *b = fmt_encode( f , U , 10 + k , &len , &po , &pl ) ;
	fmt_spit( path , b , len ) ; free( b ) ;
	readback( f , U , dims , 10 + k , tol_of( f , U ) , nm ) ;
      }
    } else { /* a failing read: file cut in the payload */
      static const int which[2] = { 0 , 0 } ; (void)which ;
      fmt_t f = o == nw + na ? (fmt_t){ NERSC_HEADER , OUTPUT_NCxNC , 1 , 1 } : (fmt_t){ ILDG_BQCD_HEADER , OUTPUT_NCxNC , 0 , 1 } ;
      size_t len , po , pl ; struct head_data H ;
      unsigned char *b = fmt_encode( f , U , 10 + k , &len , &po , &pl ) ;
      fmt_spit( path , b , po + pl/2 + 3 ) ; free( b ) ;
      Latt.head = f.head ;
      struct site *r = read_file( &H , path ) ; mc_trans( 1 ) ;
      if( r ) mc_fail( "history-cut" , "a cut file was accepted" ) ;
      fx_dims( dims ) ;
    }
    free( U ) ;
  }
}

int main( int argc , char **argv )
{
  mc_init( argc , argv , "C03" , "c03_io" ) ;
  nw = fmt_written( wf , wty ) ; na = fmt_all( af ) ;
  size_t *sh ; int ns , k , o , a , b , c , m ;
  size_t ext[] = { 1 , 2 , 3 , 4 } , small[ ND ] ; for( m = 0 ; m < ND ; m++ ) small[m] = 2 ;
  ns = fx_shapes( &sh , ext , 4 , mc_thorough() ? 300 : 96 ) ; ns = fx_long( &sh , ns , 1 , 100 ) ; if( mc_thorough( ) ) ns = fx_long( &sh , ns , 2 , 300 ) ;
  mc_timeout( 120 ) ;
  for( o = 0 ; o < nw ; o++ ) for( k = 0 ; k < ns ; k++ ) {
    char nm[ 64 ] = "" ; for( m = 0 ; m < ND ; m++ ) sprintf( nm + strlen( nm ) , "%s%zu" , m ? "x" : "" , sh[ k*ND + m ] ) ;
    if( mc_begin( "write %s %s" , fmt_name( wf[o] ) , nm ) ) {
      sprintf( path , "%s/conf" , mc_scratch() ) ;
      mcomp_config( 1 , POL_RR ) ; fx_dims( sh + k*ND ) ;
      static const int kinds[] = { F_HOT , F_COLD , F_DIAG , F_CENTER , F_WEAK } ;
      static const size_t flows[] = { 1 , 123456 , 0 } ;
      int nk , t , mem , fl ;
      for( nk = 0 ; nk < ( k % 5 == 0 || mc_thorough() ? 5 : 1 ) ; nk++ ) {
	cplx *U = fx_field( kinds[nk] , 7 + nk ) ; uint64_t h0 = 0 , h = 0 ; int first = 1 ;
	if( !storable( wf[o] , U ) && wf[o].head != CERN_HEADER && kinds[nk] != F_COLD ) { free( U ) ; continue ; }
	for( mem = 0 ; mem < 2 ; mem++ ) for( t = 1 ; t <= 3 ; t += 2 ) {
	  char w[ 96 ] ; fl = ( mem + t ) % 3 ;
	  mcomp_config( t , POL_RR ) ; fx_dims( sh + k*ND ) ;
	  mcenv_membytes = mem ? SCARCE : PLENTY ;
	  sprintf( w , "%s field, %s memory, %d threads, number %zu" , fx_kindname[ kinds[nk] ] , mem ? "scarce" : "plentiful" , t , flows[fl] ) ;
	  write_and_check( wf[o] , wty[o] , U , sh + k*ND , flows[fl] , w , &h ) ;
	  if( first ) { h0 = h ; first = 0 ; } else if( h != h0 ) mc_fail( "bytes" , "%s: bytes written depend on the strategy or the threads" , w ) ;
	  mc_traces( 1 ) ; mc_distinct( h ) ;
	  if( mc_nfail() ) break ;
	}
	mc_states( 1 ) ;
	free( U ) ; if( mc_nfail() ) break ;
      }
      if( k % 50 == 0 ) mc_sample( "written with plenty/scarce memory and 1/3 threads, decoded and read back" ) ;
      mc_end( ) ;
    }
  }
  for( o = 0 ; o < na ; o++ ) for( k = 0 ; k < ns ; k++ ) {
    char nm[ 64 ] = "" ; for( m = 0 ; m < ND ; m++ ) sprintf( nm + strlen( nm ) , "%s%zu" , m ? "x" : "" , sh[ k*ND + m ] ) ;
    if( mc_begin( "read %s %s" , fmt_name( af[o] ) , nm ) ) {
      sprintf( path , "%s/conf" , mc_scratch() ) ;
      mcomp_config( 1 , POL_RR ) ; fx_dims( sh + k*ND ) ;
      int t , mem , nk ;
      static const int kinds[] = { F_HOT , F_COLD , F_DIAG } ;
      for( nk = 0 ; nk < ( k % 5 == 0 || mc_thorough() ? 3 : 1 ) ; nk++ ) {
	cplx *U = fx_field( kinds[nk] , 31 ) ; size_t len , po , pl ;
	if( !storable( af[o] , U ) ) { free( U ) ; continue ; }
	unsigned char *q = fmt_encode( af[o] , U , 4321 , &len , &po , &pl ) ; fmt_spit( path , q , len ) ; free( q ) ;
	for( mem = 0 ; mem < 2 ; mem++ ) for( t = 1 ; t <= 3 ; t += 2 ) {
	  mcomp_config( t , POL_RR ) ; fx_dims( sh + k*ND ) ;
	  mcenv_membytes = mem ? SCARCE : PLENTY ;
	  char w[ 96 ] ; sprintf( w , "%s field, %s memory, %d threads" , fx_kindname[ kinds[nk] ] , mem ? "scarce" : "plentiful" , t ) ;
	  readback( af[o] , U , sh + k*ND , 4321 , tol_of( af[o] , U ) , w ) ;
	  mc_traces( 1 ) ;
	}
	mc_states( 1 ) ; free( U ) ;
      }
      mc_end( ) ;
    }
  }
  /* histories: all pairs of every operation, all triples of the written formats and the failing reads */
  const int nops = nw + na + 2 ;
  for( a = 0 ; a < nops ; a++ ) for( b = 0 ; b < nops ; b++ )
    if( mc_begin( "history %d %d" , a , b ) ) { sprintf( path , "%s/conf" , mc_scratch() ) ; int ops[2] = { a , b } ; mcomp_config( 1 , POL_RR ) ; history( ops , 2 , small ) ; mc_states( 1 ) ; mc_traces( 1 ) ; mc_end( ) ; }
  int tr[ 64 ] , nt = 0 ;
  for( a = 0 ; a < nops ; a++ ) {
    if( a < nw || a >= nw + na ) tr[ nt++ ] = a ;
    else if( mc_thorough() || af[ a - nw ].head == ILDG_BQCD_HEADER ) tr[ nt++ ] = a ;
  }
  for( a = 0 ; a < nt ; a++ ) for( b = 0 ; b < nt ; b++ ) {
    if( mc_begin( "histories %d %d *" , tr[a] , tr[b] ) ) {
      sprintf( path , "%s/conf" , mc_scratch() ) ; mcomp_config( 1 , POL_RR ) ;
      for( c = 0 ; c < nt && !mc_nfail() ; c++ ) { int ops[3] = { tr[a] , tr[b] , tr[c] } ; history( ops , 3 , small ) ; mc_states( 1 ) ; mc_traces( 1 ) ; }
      mc_end( ) ;
    }
  }
  /* an existing file is never overwritten */
  for( o = 0 ; o < nw ; o++ ) if( mc_begin( "existing %s" , fmt_name( wf[o] ) ) ) {
    sprintf( path , "%s/conf" , mc_scratch() ) ; mcomp_config( 1 , POL_RR ) ; fx_dims( small ) ;
    fmt_spit( path , (const unsigned char*)"keep me" , 7 ) ;
    cplx *U = fx_field( F_HOT , 3 ) ; struct site *lat = fx_lat( U ) ; size_t n ;
    if( write_configuration( lat , path , wty[o] , "d" ) != GLU_FAILURE ) mc_fail( "overwrite" , "writing over an existing file did not fail" ) ;
    unsigned char *q = fmt_slurp( path , &n ) ;
    if( !q || n != 7 || memcmp( q , "keep me" , 7 ) ) mc_fail( "overwrite" , "an existing file was overwritten" ) ;
    mc_states( 1 ) ; mc_traces( 1 ) ;
    mc_end( ) ;
  }
  return mc_finish( ) ;
}
