/* C02: every shape: site/coordinate/momentum maps, neighbour tables, colourings */
#include "fx.h"
#include "mc.h"
#include "mcomp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "geometry.h"
#include "init.h"
#include "draughtboard.h"
#include "GLU_malloc.h"

/* independent maps: first coordinate fastest, direction skip left out */
static size_t sub_vol( size_t skip ) { size_t v = 1 , m ; for( m = 0 ; m < ND ; m++ ) if( m != skip ) v *= Latt.dims[m] ; return v ; }
static void sub_coord( int *x , size_t i , size_t skip )
{ size_t m ; for( m = 0 ; m < ND ; m++ ) if( m == skip ) x[m] = 0 ; else { x[m] = (int)( i % Latt.dims[m] ) ; i /= Latt.dims[m] ; } }
static size_t full_site( const int *x ) { size_t s = 0 ; int m ; for( m = ND-1 ; m >= 0 ; m-- ) s = s*Latt.dims[m] + x[m] ; return s ; }
static int same( const int *a , const int *b ) { int m ; for( m = 0 ; m < ND ; m++ ) if( a[m] != b[m] ) return 0 ; return 1 ; }
static int centred( int x , int L ) { int lo = -( L/2 ) ; while( x < lo ) x += L ; while( x > L - 1 - L/2 ) x -= L ; return x ; }

static void maps( void )
{
  size_t i , mu , d ; int x[ ND ] , y[ ND ] , z[ ND ] ;
  size_t lcu = 1 , vol = 1 ;
  for( mu = 0 ; mu < ND ; mu++ ) { if( mu < ND-1 ) lcu *= Latt.dims[mu] ; vol *= Latt.dims[mu] ; }
  if( Latt.Volume != vol ) mc_fail( "volume" , "volume %zu, expected %zu" , Latt.Volume , vol ) ;
  if( Latt.Lcu != lcu ) mc_fail( "volume" , "spatial volume %zu, expected %zu" , Latt.Lcu , lcu ) ;
#if ND > 2
  if( Latt.Lsq != lcu / Latt.dims[ND-2] ) mc_fail( "volume" , "Lsq %zu, expected %zu" , Latt.Lsq , lcu / Latt.dims[ND-2] ) ;
#endif
  for( mu = 0 ; mu < ND ; mu++ ) if( fabs( Latt.twiddles[mu] - 2*M_PI/Latt.dims[mu] ) > 1e-13 ) mc_fail( "twiddle" , "twiddle[%zu] = %g" , mu , Latt.twiddles[mu] ) ;
  char *seen = malloc( vol ) ;
  memset( seen , 0 , vol ) ;
  for( i = 0 ; i < vol ; i++ ) {
    int e[ ND ] ; sub_coord( e , i , ND ) ;
    int s = get_mom_2piBZ( x , i , ND ) , es = 0 ;
    for( mu = 0 ; mu < ND ; mu++ ) es += e[mu] ;
    if( !same( x , e ) ) { mc_fail( "coordinates" , "get_mom_2piBZ(%zu) is wrong" , i ) ; break ; }
    if( s != es ) mc_fail( "coordinates" , "get_mom_2piBZ(%zu) returns sum %d, expected %d" , i , s , es ) ;
    if( gen_site( x ) != i ) { mc_fail( "site" , "gen_site does not invert get_mom_2piBZ at %zu" , i ) ; break ; }
    for( mu = 0 ; mu < ND ; mu++ ) {
      int f[ ND ] ; memcpy( f , e , sizeof( f ) ) ; f[mu] = ( f[mu] + 1 ) % (int)Latt.dims[mu] ;
      size_t up = gen_shift( i , (int)mu ) ;
      if( up != full_site( f ) ) { mc_fail( "shift" , "forward shift of %zu in %zu is %zu" , i , mu , up ) ; break ; }
      f[mu] = ( e[mu] + (int)Latt.dims[mu] - 1 ) % (int)Latt.dims[mu] ;
      size_t dn = gen_shift( i , -(int)mu - 1 ) ;
      if( dn != full_site( f ) ) { mc_fail( "shift" , "backward shift of %zu in %zu is %zu" , i , mu , dn ) ; break ; }
      if( gen_shift( up , -(int)mu - 1 ) != i || gen_shift( dn , (int)mu ) != i ) mc_fail( "shift" , "shifts of %zu in %zu do not cancel" , i , mu ) ;
    }
    /* hirep order: last-but-one coordinate fastest, first slowest of the spatial ones, time slowest */
    get_mom_2piBZ_hirep2( y , i ) ;
    { size_t r = i ; int m ; for( m = ND-2 ; m >= 0 ; m-- ) { z[m] = (int)( r % Latt.dims[m] ) ; r /= Latt.dims[m] ; } z[ND-1] = (int)r ; }
    if( !same( y , z ) ) { mc_fail( "hirep" , "get_mom_2piBZ_hirep2(%zu) is wrong" , i ) ; break ; }
  }
  /* momentum labels, with every direction left out in turn */
  for( d = 0 ; d <= ND ; d++ ) {
    const size_t v = sub_vol( d ) ;
    memset( seen , 0 , vol ) ;
    for( i = 0 ; i < v ; i++ ) {
      int e[ ND ] , c[ ND ] ;
      sub_coord( e , i , d ) ;
      get_mom_2piBZ( x , i , d ) ;
      if( !same( x , e ) ) { mc_fail( "coordinates" , "get_mom_2piBZ(%zu,%zu) is wrong" , i , d ) ; break ; }
      /* i-th label of the centred zone */
      get_mom_pipi( y , i , d ) ;
      for( mu = 0 ; mu < ND ; mu++ ) c[mu] = mu == d ? 0 : e[mu] - (int)( Latt.dims[mu]/2 ) ;
      if( !same( y , c ) ) { mc_fail( "pipi" , "get_mom_pipi(%zu,%zu) is wrong" , i , d ) ; break ; }
      /* its Fourier mode */
      for( mu = 0 ; mu < ND ; mu++ ) z[mu] = mu == d ? 0 : ( c[mu] + (int)Latt.dims[mu] ) % (int)Latt.dims[mu] ;
      size_t k = get_site_pipiBZ( y , d ) ;
      if( k != full_site( z ) ) { mc_fail( "pipi" , "get_site_pipiBZ of label %zu (without %zu) is %zu, expected %zu" , i , d , k , full_site( z ) ) ; break ; }
      if( seen[k] ) mc_fail( "pipi" , "two labels share Fourier mode %zu" , k ) ;
      seen[k] = 1 ;
      /* and back from the mode to the label */
      {
	for( mu = 0 ; mu < ND ; mu++ ) c[mu] = mu == d ? 0 : centred( e[mu] , (int)Latt.dims[mu] ) ;
	int w[ ND ] ; memcpy( w , e , sizeof( w ) ) ;
	size_t s = get_site_2piBZ( w , d ) , es ;
	for( mu = 0 ; mu < ND ; mu++ ) z[mu] = mu == d ? 0 : c[mu] + (int)( Latt.dims[mu]/2 ) ;
	es = full_site( z ) ;
	if( s != es ) { mc_fail( "momconv" , "get_site_2piBZ of mode %zu (without %zu) is %zu, expected %zu" , i , d , s , es ) ; break ; }
	memcpy( w , c , sizeof( w ) ) ;
	s = get_site_2piBZ( w , d ) ;
	if( s != es ) { mc_fail( "momconv" , "get_site_2piBZ of centred momentum %zu (without %zu) is %zu, expected %zu" , i , d , s , es ) ; break ; }
	if( d == ND ) {
	  TwoPI_mpipi_momconv( y , i , ND ) ;
	  if( !same( y , c ) ) { mc_fail( "momconv" , "TwoPI_mpipi_momconv(%zu) is wrong" , i ) ; break ; }
	}
      }
      mc_trans( 1 ) ;
    }
  }
  /* vectors from the origin, distances, translations */
  for( d = ND-1 ; d <= ND ; d++ ) {
    const size_t v = sub_vol( d ) ;
    for( i = 0 ; i < v ; i++ ) {
      int e[ ND ] ; size_t rsq_ = 0 ; double kc = 0 ;
      sub_coord( e , i , d ) ;
      for( mu = 0 ; mu < ND ; mu++ ) {
	z[mu] = e[mu] > (int)( Latt.dims[mu]/2 ) ? e[mu] - (int)Latt.dims[mu] : e[mu] ;
	rsq_ += z[mu]*z[mu] ; if( mu < d ) kc += cos( 2*M_PI*e[mu]/Latt.dims[mu] ) ;
      }
      get_vec_from_origin( y , i , d ) ;
      if( !same( y , z ) ) { mc_fail( "origin" , "get_vec_from_origin(%zu,%zu) is wrong" , i , d ) ; break ; }
      if( compute_rsq( i , d ) != rsq_ ) { mc_fail( "rsq" , "compute_rsq(%zu,%zu) = %zu, expected %zu" , i , d , compute_rsq( i , d ) , rsq_ ) ; break ; }
      double p2 = gen_p_sq( i , d ) , ep2 = i == 0 ? 1.0 : 2*( (double)d - kc ) ;
      if( fabs( p2 - ep2 ) > 1e-12 && !( ep2 < 1e-12 && fabs( p2 - 1 ) < 1e-12 ) ) { mc_fail( "psq" , "gen_p_sq(%zu,%zu) = %.12g, expected %.12g" , i , d , p2 , ep2 ) ; break ; }
      if( d == ND ) {
	int flag , ef = 1 ; double f2 = gen_p_sq_feyn( i , &flag ) ;
	for( mu = 0 ; mu < ND-1 ; mu++ ) if( e[mu] ) ef = 0 ;
	if( fabs( f2 - ep2 ) > 1e-12 ) { mc_fail( "psq" , "gen_p_sq_feyn(%zu) = %.12g, expected %.12g" , i , f2 , ep2 ) ; break ; }
	if( flag != ef ) { mc_fail( "psq" , "gen_p_sq_feyn(%zu) zero-mode flag %d, expected %d" , i , flag , ef ) ; break ; }
	GLU_real p[ ND ] ; get_mom_pipi( y , i , ND ) ; gen_get_p( p , i , ND ) ;
	GLU_real q[ ND ] ; compute_p( q , y , ND ) ;
	GLU_real q3[ ND ] ; compute_p( q3 , y , ND-1 ) ;
	for( mu = 0 ; mu < ND ; mu++ ) {
	  double a = y[mu]*2*M_PI/Latt.dims[mu] ;
#ifdef SIN_MOM
	  a = 2*sin( a/2 ) ;
#endif
	  if( fabs( p[mu] - a ) > 1e-12 ) mc_fail( "momentum" , "gen_get_p(%zu)[%zu]" , i , mu ) ;
	  if( fabs( q[mu] - a ) > 1e-12 ) mc_fail( "momentum" , "compute_p(%zu)[%zu]" , i , mu ) ;
	  if( fabs( q3[mu] - ( mu < ND-1 ? a : 0 ) ) > 1e-12 ) mc_fail( "momentum" , "compute_p of the spatial part (%zu)[%zu]" , i , mu ) ;
	}
      }
    }
    /* all separations, forward and backward, from every site of a bounded set */
    const size_t step = v*v > 400000 ? ( v*v ) / 400000 + 1 : 1 ;
    if( step > 1 ) mc_cap( "translations: every %zu-th separation on volumes above 632 sites" , step ) ;
    size_t j ;
    for( j = 0 ; j < v ; j += step ) {
      int sep[ ND ] , neg[ ND ] ; sub_coord( sep , j , d ) ;
      for( mu = 0 ; mu < ND ; mu++ ) neg[mu] = -sep[mu] ;
      for( i = 0 ; i < v ; i++ ) {
	int e[ ND ] ; sub_coord( e , i , d ) ;
	for( mu = 0 ; mu < ND ; mu++ ) z[mu] = ( e[mu] + sep[mu] ) % (int)Latt.dims[mu] ;
	size_t t = compute_spacing( sep , i , d ) ;
	if( t != full_site( z ) ) { mc_fail( "translate" , "compute_spacing of site %zu by %zu (%zu dims) is %zu" , i , j , d , t ) ; i = v ; j = v ; break ; }
	if( compute_spacing( neg , t , d ) != i ) { mc_fail( "translate" , "opposite translations do not cancel" ) ; i = v ; j = v ; break ; }
      }
    }
  }
  free( seen ) ;
}

static void tables( void )
{
  struct site *lat = allocate_lat( ) ;
  size_t i , mu ;
  if( !lat ) { mc_fail( "alloc" , "allocate_lat failed" ) ; return ; }
  for( i = 0 ; i < Latt.Volume ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) {
    int e[ ND ] ; sub_coord( e , i , ND ) ;
    e[mu] = ( e[mu] + 1 ) % (int)Latt.dims[mu] ;
    if( lat[i].neighbor[mu] != full_site( e ) ) { mc_fail( "neighbour" , "neighbor[%zu] of site %zu is %zu, expected %zu" , mu , i , (size_t)lat[i].neighbor[mu] , full_site( e ) ) ; return ; }
    sub_coord( e , i , ND ) ; e[mu] = ( e[mu] + (int)Latt.dims[mu] - 1 ) % (int)Latt.dims[mu] ;
    if( lat[i].back[mu] != full_site( e ) ) { mc_fail( "neighbour" , "back[%zu] of site %zu is %zu, expected %zu" , mu , i , (size_t)lat[i].back[mu] , full_site( e ) ) ; return ; }
    if( lat[ lat[i].neighbor[mu] ].back[mu] != i ) mc_fail( "neighbour" , "tables are not inverse at %zu" , i ) ;
    mc_trans( 2 ) ;
  }
  /* links must be separate storage */
  for( i = 0 ; i < Latt.Volume ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) { size_t k ; for( k = 0 ; k < NCNC ; k++ ) lat[i].O[mu][k] = i*ND + mu + I*k ; }
  for( i = 0 ; i < Latt.Volume ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) { size_t k ; for( k = 0 ; k < NCNC ; k++ ) if( lat[i].O[mu][k] != i*ND + mu + I*k ) { mc_fail( "storage" , "links share storage at %zu" , i ) ; return ; } }
  free_lat( lat ) ;
}

/* the colouring over the first nd dimensions; kind 1: the rectangle colouring */
static void colouring( size_t length , size_t nd )
{
  struct draughtboard db ;
  size_t c , k , i , mu ; int small = 0 ;
  memset( &db , 0x5a , sizeof( db ) ) ;
  for( mu = 0 ; mu < nd ; mu++ ) if( Latt.dims[mu] < 2 ) small = 1 ;
  int r = init_cb( &db , length , nd ) ;
  if( r == GLU_FAILURE ) { if( !small ) mc_fail( "refused" , "colouring of the first %zu dimensions refused" , nd ) ; return ; }
  int *col = malloc( length * sizeof( int ) ) ;
  for( i = 0 ; i < length ; i++ ) col[i] = -1 ;
  size_t n = 0 ;
  for( c = 0 ; c < db.Ncolors ; c++ ) for( k = 0 ; k < db.Nsquare[c] ; k++ ) {
    size_t s = db.square[c][k] ;
    if( s >= length ) { mc_fail( "colour-range" , "colour %zu lists site %zu of %zu" , c , s , length ) ; return ; }
    if( col[s] >= 0 ) { mc_fail( "colour-twice" , "site %zu is listed twice" , s ) ; return ; }
    col[s] = (int)c ; n++ ;
  }
  if( n != length ) mc_fail( "colour-missing" , "%zu of %zu sites are coloured" , n , length ) ;
  else for( i = 0 ; i < length ; i++ ) for( mu = 0 ; mu < nd ; mu++ ) {
    int e[ ND ] ; sub_coord( e , i , nd < ND ? nd : ND ) ;
    if( Latt.dims[mu] < 2 ) continue ;
    e[mu] = ( e[mu] + 1 ) % (int)Latt.dims[mu] ;
    if( col[ full_site( e ) ] == col[i] ) { mc_fail( "colour-conflict" , "sites %zu and %zu are neighbours in direction %zu and both have colour %d" , i , full_site( e ) , mu , col[i] ) ; return ; }
    mc_trans( 1 ) ;
  }
  mc_distinct( mc_hash( col , length*sizeof( int ) , 0 ) ) ;
  free( col ) ;
  free_cb( &db ) ;
}

int main( int argc , char **argv )
{
  mc_init( argc , argv , "C02" , "c02_geometry" ) ;
  size_t ext[] = { 1 , 2 , 3 , 4 , 5 , 6 , 7 , 8 , 9 } ;
  size_t *sh ; int n , k , t ;
  const size_t vmax = mc_thorough() ? ( ND == 3 ? 729 : 2500 ) : ( ND == 3 ? 512 : 700 ) ;
  n = fx_shapes( &sh , ext , mc_thorough() ? 9 : 8 , vmax ) ;
  /* long extents: in every direction, alone and next to a short or another long one */
  static const size_t lng[] = { 10 , 12 , 15 , 16 , 17 , 20 , 24 , 31 , 32 , 33 , 48 , 63 , 64 , 65 , 96 , 127 , 128 , 200 , 255 , 256 , 257 } ;
  const int nl = sizeof( lng )/sizeof( lng[0] ) ; int a , b , d ; const size_t lmax = mc_thorough( ) ? 4200 : 1100 ; size_t *all = malloc( ( n + nl*nl*4*ND*ND )*ND*sizeof( size_t ) ) ; memcpy( all , sh , n*ND*sizeof( size_t ) ) ; sh = all ;
  static const size_t with[] = { 1 , 2 , 3 , 10 , 16 , 17 } ;
  for( a = 0 ; a < nl ; a++ ) for( d = 0 ; d < ND ; d++ ) for( b = 0 ; b < 6 ; b++ ) for( t = 0 ; t < ND ; t++ ) { int m ; size_t v = 1 ; if( t == d || ( b == 0 && t != ( d + 1 )%ND ) ) continue ; for( m = 0 ; m < ND ; m++ ) v *= all[ n*ND + m ] = m == d ? lng[a] : m == t ? with[b] : b < 3 && b && m == 1 ? 2 : 1 ; if( v <= lmax ) n++ ; }
  for( k = 0 ; k < n ; k++ ) {
    char nm[ 64 ] = "" ; int m ;
    for( m = 0 ; m < ND ; m++ ) sprintf( nm + strlen( nm ) , "%s%zu" , m ? "x" : "" , sh[ k*ND + m ] ) ;
    if( mc_begin( "shape %s" , nm ) ) {
      mcomp_config( 1 , POL_RR ) ;
      fx_dims( sh + k*ND ) ;
      maps( ) ;
      for( t = 1 ; t <= 3 ; t += 2 ) { mcomp_config( t , POL_RR ) ; tables( ) ; }
      colouring( Latt.Volume , ND ) ;
      colouring( Latt.Lcu , ND-1 ) ;
      mc_states( Latt.Volume ) ;
      mc_traces( 1 ) ;
      if( k % 97 == 0 ) mc_sample( "%zu sites, all maps, tables and colourings" , Latt.Volume ) ;
      mc_end( ) ;
    }
  }
  return mc_finish( ) ;
}
