/* C09: heat-bath and overrelaxation sweeps.  The colouring of every shape; sweeps
   against a serial model (at infinite coupling the heat bath is deterministic);
   the distribution of one SU(2) heat-bath step by enumerating the uniform
   deviates it consumes; Schwinger-Dyson identities and limits of short histories. */
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "fx.h"
#include "mc.h"
#include "mcomp.h"
#include "mcenv.h"
#include "GLUlib_wrap.h"
#include "KPHB.h"
#include "hb.h"
#include "relax.h"
#include "draughtboard.h"
#include "plaqs_links.h"
#include "par_rng.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <omp.h>
static int quiet_cb( struct draughtboard *db ) { size_t l ; mc_capture( ) ; const int s = init_cb( db , fxV , ND ) ; free( mc_captured( &l ) ) ; return s ; }
static int quiet_rng( uint32_t seed ) { size_t l ; Latt.Seed[0] = seed ; mc_capture( ) ; const int s = initialise_par_rng( NULL ) ; free( mc_captured( &l ) ) ; return s ; }
/* ------------------------------------------------------------ colouring */
static long nsh ;
static void colours( const size_t *d )
{
  fx_dims( d ) ; struct draughtboard db ; size_t i , c , k ; int mu , one = 0 ; nsh++ ;
  for( mu = 0 ; mu < ND ; mu++ ) one |= d[mu] < 2 ;
  if( one ) { /* a link in its own staple: no colouring helps */
    cplx *U = fx_field( F_MED , 3 ) ; struct site *lat = fx_lat( U ) ; struct hb_info H ; memset( &H , 0 , sizeof( H ) ) ; size_t l ; H.beta = 2*NC ; H.iterations = 1 ; H.Nmeasure = 1 ; H.Nsave = 10 ; Latt.flow = 0 ; H.continuation = GLU_FALSE ; Latt.Seed[0] = 3 ;
    mc_capture( ) ; const int st = hb_update( lat , H , "traj" , OUTPUT_NCxNC , "x" ) ; free( mc_captured( &l ) ) ; mc_traces( 1 ) ; mc_states( 1 ) ;
    if( st == GLU_SUCCESS ) mc_fail( "extent one" , "%s: updated, although a link is part of its own staple there" , fx_dimstr( ) ) ; else if( fx_distlat( lat , U ) > 1e-14 ) mc_fail( "touched" , "%s: refused but the field changed" , fx_dimstr( ) ) ;
    free( U ) ; free_lat( lat ) ; fx_undims( ) ; return ; }
  const int st = quiet_cb( &db ) ; mc_traces( 1 ) ; mc_states( fxV ) ;
  if( st != GLU_SUCCESS ) { mc_fail( "refused" , "%s: no colouring, though one exists" , fx_dimstr( ) ) ; fx_undims( ) ; return ; }
  int *col = malloc( sizeof( int )*fxV ) ; for( i = 0 ; i < fxV ; i++ ) col[i] = -1 ;
  for( c = 0 ; c < db.Ncolors && !mc_nfail( ) ; c++ ) for( k = 0 ; k < db.Nsquare[c] ; k++ ) { const size_t s = db.square[c][k] ;
    if( s >= fxV ) { mc_fail( "range" , "%s: colour %zu lists site %zu" , fx_dimstr( ) , c , s ) ; break ; }
    if( col[s] >= 0 ) { mc_fail( "twice" , "%s: site %zu is listed twice" , fx_dimstr( ) , s ) ; break ; }
    col[s] = c ; mc_trans( 1 ) ; }
  for( i = 0 ; i < fxV && !mc_nfail( ) ; i++ ) { if( col[i] < 0 ) { mc_fail( "missing" , "%s: site %zu is in no colour" , fx_dimstr( ) , i ) ; break ; }
    /* a link's staples hold the links of the same direction one step to either side in the other directions */
    for( mu = 0 ; mu < ND ; mu++ ) if( col[ fx_up( i , mu ) ] == col[i] ) { mc_fail( "neighbours" , "%s: sites %zu and its neighbour %zu in direction %d share colour %d, so a link is updated together with its own staple" , fx_dimstr( ) , i , fx_up( i , mu ) , mu , col[i] ) ; break ; } }
  free( col ) ; free_cb( &db ) ; fx_undims( ) ;
}
/* ------------------------------------------------------------ serial sweeps */
static int pa[ NC*( NC-1 )/2 ] , pb[ NC*( NC-1 )/2 ] , np ;
static void pairs( void )
{
#if NC == 3
  np = 3 ; pa[0] = 0 ; pb[0] = 1 ; pa[1] = 1 ; pb[1] = 2 ; pa[2] = 2 ; pb[2] = 0 ;
#else
  int d , i ; np = 0 ; for( d = 1 ; d < NC ; d++ ) for( i = 0 ; i + d < NC ; i++ ) { pa[np] = i ; pb[np++] = i + d ; }
#endif
}
static void staple( cplx *S , const cplx *U , size_t i , int mu )
{ int nu ; m_zero( S ) ; for( nu = 0 ; nu < ND ; nu++ ) if( nu != mu ) { cplx t[ NN ] ; r_staple( t , U , i , mu , nu ) ; m_add( S , t ) ; } }
static void one( cplx *U , size_t i , int mu , int orx )
{
  cplx S[ NN ] , W[ NN ] ; staple( S , U , i , mu ) ; cplx *u = L(U,i,mu) ; int k , j ;
  for( k = 0 ; k < np ; k++ ) { const int a = pa[k] , b = pb[k] ; m_mulad( W , u , S ) ;
    cplx s0 = W[ a*NC+a ] + conj( W[ b*NC+b ] ) , s1 = W[ a*NC+b ] - conj( W[ b*NC+a ] ) ;
    const double n = sqrt( creal( s0*conj( s0 ) ) + creal( s1*conj( s1 ) ) ) ; if( n == 0 ) continue ; s0 /= n ; s1 /= n ;
    cplx g0 = conj( s0 ) , g1 = -s1 ; /* first row of s^dagger */
    if( orx ) { const cplx h0 = g0*g0 - g1*conj( g1 ) , h1 = g0*g1 + g1*conj( g0 ) ; g0 = h0 ; g1 = h1 ; }
    for( j = 0 ; j < NC ; j++ ) { const cplx x = u[ a*NC+j ] , y = u[ b*NC+j ] ; u[ a*NC+j ] = g0*x + g1*y ; u[ b*NC+j ] = -conj( g1 )*x + conj( g0 )*y ; } }
  mc_trans( 1 ) ;
}
static void ref_sweep( cplx *U , const struct draughtboard *db , int orx , int colour_first )
{
  size_t c , k ; int mu ;
  if( colour_first ) { for( c = 0 ; c < db->Ncolors ; c++ ) for( mu = 0 ; mu < ND ; mu++ ) for( k = 0 ; k < db->Nsquare[c] ; k++ ) one( U , db->square[c][k] , mu , orx ) ; }
  else for( mu = 0 ; mu < ND ; mu++ ) for( c = 0 ; c < db->Ncolors ; c++ ) for( k = 0 ; k < db->Nsquare[c] ; k++ ) one( U , db->square[c][k] , mu , orx ) ;
}
static double plaq( const cplx *U ) { double a , s , t ; r_plaqs( &a , &s , &t , U ) ; return a ; }
static double worst ;
/* a history of sweeps, 'o' overrelaxation and 'h' heat bath at infinite beta */
static void history( const cplx *U , const char *seq , int T , int pol , const char *kn )
{
  struct draughtboard db ; if( quiet_cb( &db ) != GLU_SUCCESS ) { mc_fail( "colouring" , "%s is refused" , fx_dimstr( ) ) ; return ; }
  quiet_rng( 99 ) ; cplx *A = fx_dup( U ) , *B = fx_dup( U ) ; struct site *lat = fx_lat( U ) ; const char *s ; double p0 = plaq( U ) ;
  char w[ 100 ] ; snprintf( w , sizeof( w ) , "%s, %s field, %s, %d threads, policy %d" , fx_dimstr( ) , kn , seq , T , pol ) ; mc_traces( 1 ) ;
  for( s = seq ; *s && !mc_nfail( ) ; s++ ) { const int orx = *s == 'o' ; size_t i ;
#pragma omp parallel
    { if( orx ) OR_lattice( lat , db ) ; else hb_lattice( lat , 1E-20 , db ) ; }
    cplx *Z = fx_dup( A ) ; for( i = 0 ; i < fxV*ND*NN ; i++ ) Z[i] += 1e-13*( ( i*2654435761u >> 7 & 255 )/128. - 1 ) ; /* how much the sweep itself amplifies */
    ref_sweep( A , &db , orx , 0 ) ; ref_sweep( B , &db , orx , 1 ) ; ref_sweep( Z , &db , orx , 0 ) ; mc_states( fxV*ND ) ; const double tol = 1e-8 + 10*fx_dist( A , Z ) ; free( Z ) ;
    const double da = fx_distlat( lat , A ) , db_ = fx_distlat( lat , B ) , d = da < db_ ? da : db_ ; if( d > worst ) worst = d ;
    if( d > tol ) { cplx *N = fx_get( lat ) ; int mu ; for( i = 0 ; i < fxV ; i++ ) { for( mu = 0 ; mu < ND ; mu++ ) if( m_dist( L(N,i,mu) , L(da < db_ ? A : B,i,mu) ) > tol ) goto out ; }
      out : mc_fail( "sweep" , "%s: sweep %ld (%s) differs from the serial sweep by %.2e, first at site %zu direction %d" , w , (long)( s - seq ) , orx ? "overrelaxation" : "heat bath at infinite beta" , d , i , mu ) ; free( N ) ; break ; }
    cplx *N = fx_get( lat ) ; const double p = plaq( N ) ; mc_distinct( fx_hash( N ) ) ; memcpy( A , N , sizeof( cplx )*NN*ND*fxV ) ; memcpy( B , N , sizeof( cplx )*NN*ND*fxV ) ; free( N ) ; /* reflections amplify roundoff: compare sweep by sweep */
    if( orx && fabs( p - p0 ) > 1e-11 ) mc_fail( "action" , "%s: overrelaxation changes the plaquette from %.15f to %.15f" , w , p0 , p ) ;
    if( !orx && p < p0 - 1e-11 ) mc_fail( "cools" , "%s: a heat bath at infinite beta lowers the plaquette from %.15f to %.15f" , w , p0 , p ) ;
    if( fx_unitarity( lat ) > 1e-11 ) mc_fail( "unitary" , "%s: links leave the group by %.2e" , w , fx_unitarity( lat ) ) ;
    p0 = p ;
  }
  free( A ) ; free( B ) ; free_lat( lat ) ; free_cb( &db ) ; free_par_rng( ) ;
}
/* hb_update at infinite beta performs the sweeps it says */
static void whole( const cplx *U , size_t therm , size_t from , size_t iters , size_t nor , size_t nmeas )
{
  struct draughtboard db ; if( quiet_cb( &db ) != GLU_SUCCESS ) return ;
  cplx *A = fx_dup( U ) , *B = fx_dup( U ) ; struct site *lat = fx_lat( U ) ; size_t i , k , l ; struct hb_info H ; memset( &H , 0 , sizeof( H ) ) ;
  H.beta = 1E20 ; H.iterations = iters ; H.Nmeasure = nmeas ; H.Nor = nor ; H.Nsave = 1000 ; H.therm = therm ; H.continuation = GLU_FALSE ; Latt.flow = from ; Latt.Seed[0] = 5 ;
  char w[ 160 ] ; snprintf( w , sizeof( w ) , "%s: %zu thermalisation sweeps, iterations %zu to %zu, %zu overrelaxations" , fx_dimstr( ) , therm , from , iters , nor ) ;
  mc_capture( ) ; const int st = hb_update( lat , H , "traj" , OUTPUT_NCxNC , "x" ) ; char *out = mc_captured( &l ) , *q = out ; mc_traces( 1 ) ;
  if( st != GLU_SUCCESS ) mc_fail( "status" , "%s: fails" , w ) ;
  for( i = 0 ; i < therm && !mc_nfail( ) ; i++ ) for( k = 0 ; k <= nor ; k++ ) { ref_sweep( A , &db , k > 0 , 0 ) ; ref_sweep( B , &db , k > 0 , 1 ) ; }
  for( i = from ; i < iters && !mc_nfail( ) ; i++ ) {
    if( i%nmeas == 0 ) { char t[ 60 ] ; snprintf( t , sizeof( t ) , "[UPDATE] %zu :: {P} " , i ) ; char *f = strstr( q , t ) ;
      if( !f ) mc_fail( "measured" , "%s: no measurement of configuration %zu" , w , i ) ; else { const double p = atof( f + strlen( t ) ) ; if( fabs( p - plaq( A ) ) > 1e-8 && fabs( p - plaq( B ) ) > 1e-8 ) mc_fail( "plaquette" , "%s: configuration %zu is measured as %.12f instead of %.12f" , w , i , p , plaq( A ) ) ; q = f + strlen( t ) ; } }
    for( k = 0 ; k <= nor ; k++ ) { ref_sweep( A , &db , k > 0 , 0 ) ; ref_sweep( B , &db , k > 0 , 1 ) ; } }
  if( !mc_nfail( ) && strstr( q , "{P}" ) ) mc_fail( "extra" , "%s: measures more than it should" , w ) ;
  const double a = fx_distlat( lat , A ) , b = fx_distlat( lat , B ) ; mc_states( fxV*ND ) ;
  if( !mc_nfail( ) && a > 1e-5 && b > 1e-5 ) mc_fail( "update" , "%s: the field differs from the serial history by %.2e" , w , a < b ? a : b ) ;
  free( out ) ; free( A ) ; free( B ) ; free_lat( lat ) ; free_cb( &db ) ;
}
#if NC == 2
/* ------------------------------------------------------------ one step, every tuple of deviates on a product grid of quadrature nodes */
#define MAXN 512
static double node[ MAXN ] , wgt[ MAXN ] ; static int ng ;
static void gauss( int n )
{ /* Gauss-Legendre in t, with u = t^2(3-2t) crowding towards both ends */
  int i , j ; ng = n ;
  for( i = 0 ; i < n ; i++ ) { double x = cos( M_PI*( i + 0.75 )/( n + 0.5 ) ) , p , q , d ; int it ;
    for( it = 0 ; it < 100 ; it++ ) { p = 1 ; q = 0 ; for( j = 0 ; j < n ; j++ ) { const double t = q ; q = p ; p = ( ( 2*j+1 )*x*q - j*t )/( j+1 ) ; } d = n*( x*p - q )/( x*x - 1 ) ; const double s = p/d ; x -= s ; if( fabs( s ) < 1e-15 ) break ; }
    const double t = 0.5*( 1 + x ) , wt = 1/( ( 1-x*x )*d*d ) ; node[i] = t*t*( 3 - 2*t ) ; wgt[i] = wt*6*t*( 1-t ) ; }
}

static int tlen , drawn ; static double tfree[ 8 ] ; static uint64_t lcg ; static cplx before[ 4 ] ; static struct site *wl ;
static double uni( void ) { lcg = lcg*6364136223846793005ULL + 1442695040888963407ULL ; return ( ( lcg >> 11 ) + 0.5 )/9007199254740992.0 ; }
/* deviates of the first link: the tuple; once that link has changed, and beyond the tuple, anything */
static double draw( uint32_t t )
{
  (void)t ; if( memcmp( before , wl[0].O[0] , sizeof( before ) ) ) return uni( ) ;
  const int k = drawn++ ; if( k < tlen ) return tfree[k] ; return uni( ) ;
}
static void step( struct site *lat , const cplx *U , const cplx *S , double kp , double ib , const struct draughtboard *db , double *a0 , double *an )
{
  int mu , k ; for( mu = 0 ; mu < ND ; mu++ ) for( k = 0 ; k < NN ; k++ ) lat[0].O[mu][k] = L(U,0,mu)[k] ;
  memcpy( before , lat[0].O[0] , sizeof( before ) ) ; drawn = 0 ; hb_lattice( lat , ib , *db ) ;
  cplx V[ NN ] ; for( k = 0 ; k < NN ; k++ ) V[k] = lat[0].O[0][k] ; m_mulad( V , V , S ) ; *a0 = creal( V[0] + V[3] )/2/kp ; an[0] = cimag( V[1] )/kp ; an[1] = creal( V[1] )/kp ; an[2] = cimag( V[0] )/kp ;
}
static void distribution( double kappa , int kind )
{
  const size_t d2[] = { 2,2,2,2,2 } ; mcomp_config( 1 , POL_RR ) ; fx_dims( d2 ) ; cplx *U = fx_field( F_HOT , 31 ) ; size_t i ; int k , a , b , nu , m = 99 , pass ; long n , tot ;
  /* a staple sum of exactly zero: one side of each plane with the other sign */
  if( kind ) { for( i = 0 ; i < fxV*ND ; i++ ) m_id( U + i*NN ) ; for( nu = 1 ; nu < ND ; nu++ ) m_scale( L(U,0,nu) , -1 ) ; }
  cplx S[ NN ] ; staple( S , U , 0 , 0 ) ; const double kp = kind ? 1 : sqrt( creal( m_det( S ) ) ) ; if( kind ) m_id( S ) ;
  struct site *lat = fx_lat( U ) ; wl = lat ; size_t zero = 0 , *sq[1] = { &zero } , nsq[1] = { 1 } ; struct draughtboard db = { .square = sq , .Nsquare = nsq , .Ncolors = 1 } ;
  const double ib = kind ? 0.5 : 2*kp/kappa , kt = kind ? 0 : kappa ; char w[ 100 ] ; snprintf( w , sizeof( w ) , kind ? "vanishing staples" : "beta k = %g" , kappa ) ;
  double sum[ 4 ] = { 0 } , iso[ 3 ] = { 0 } , cov[ 3 ][ 3 ] = { { 0 } } ; mcenv_draw = draw ; lcg = 12345 ; tlen = 8 ; long tot0 = 0 ; double iw = 0 , itr = 0 ;
  /* the least number of deviates an update consumes; which of them the component along the staple depends on; the full grid over
     those (for its moments) and over all (for the directions) */
  int active[ 8 ] , na = 0 , dim[ 8 ] ; double a0 , an[ 3 ] ;
  for( n = 0 ; n < 4000 ; n++ ) { for( k = 0 ; k < 8 ; k++ ) tfree[k] = uni( ) ; step( lat , U , S , kp , ib , &db , &a0 , an ) ; if( drawn < m ) m = drawn ; }
  if( m > 7 || m < 3 ) { mc_cap( "unusual number of deviates: %d" , m ) ; goto done ; }
  memset( active , 0 , sizeof( active ) ) ;
  for( n = 0 ; n < 4000 ; n++ ) { for( k = 0 ; k < 8 ; k++ ) tfree[k] = uni( ) ; step( lat , U , S , kp , ib , &db , &a0 , an ) ; if( drawn != m ) continue ; const double b0 = a0 ;
    for( k = 0 ; k < m ; k++ ) { const double old = tfree[k] ; tfree[k] = uni( ) ; step( lat , U , S , kp , ib , &db , &a0 , an ) ; if( drawn != m || fabs( a0 - b0 ) > 1e-9 ) active[k] = 1 ; tfree[k] = old ; } }
  for( k = 0 ; k < m ; k++ ) na += active[k] ;
  for( pass = 0 ; pass < 2 ; pass++ ) { int nd = 0 ; for( k = 0 ; k < m ; k++ ) if( pass || active[k] ) dim[ nd++ ] = k ;
    const double want = mc_thorough( ) ? ( pass ? 8e6 : 4e7 ) : ( pass ? 1.8e6 : 4e6 ) ; int g = pow( want , 1./nd ) ; gauss( g > MAXN ? MAXN : g ) ; for( tot = 1 , k = 0 ; k < nd ; k++ ) tot *= ng ; tlen = m ; if( !pass ) tot0 = tot ;
    for( n = 0 ; n < tot ; n++ ) { double wt = 1 ; long x = n ; for( k = 0 ; k < m ; k++ ) tfree[k] = 0.3 + 0.1*k/8 ; for( k = 0 ; k < nd ; k++ ) { tfree[ dim[k] ] = node[ x%ng ] ; wt *= wgt[ x%ng ] ; x /= ng ; }
      step( lat , U , S , kp , ib , &db , &a0 , an ) ; mc_trans( 1 ) ; if( !( n & 65535 ) ) mc_progress( "%s" , w ) ;
      if( drawn != m ) continue ;
      if( !pass ) { sum[0] += wt ; sum[1] += wt*a0 ; sum[2] += wt*a0*a0 ; sum[3] += wt*a0*a0*a0 ; }
      else { iw += wt ; itr += wt*( 1 - a0*a0 )/3 ; for( a = 0 ; a < 3 ; a++ ) { iso[a] += wt*an[a] ; for( b = 0 ; b < 3 ; b++ ) cov[a][b] += wt*an[a]*an[b] ; } } }
    mc_traces( tot ) ; mc_states( tot ) ; }
  double z[4] = { 0 } ; const int Q = 400000 ; for( k = 0 ; k < Q ; k++ ) { const double th = ( k + 0.5 )*M_PI/Q , x = cos( th ) , r = sin( th )*sin( th )*exp( kt*( x - 1 ) ) ; z[0] += r ; z[1] += r*x ; z[2] += r*x*x ; z[3] += r*x*x*x ; }
  mc_sample( "%s: %ld tuples of %d deviates, first attempt accepted with probability %.4f; <x> %.5f (%.5f), <x^2> %.5f (%.5f), <x^3> %.5f (%.5f)" , w , tot0 , na , sum[0] , sum[1]/sum[0] , z[1]/z[0] , sum[2]/sum[0] , z[2]/z[0] , sum[3]/sum[0] , z[3]/z[0] ) ;
  if( !( sum[0] > 0.02 ) ) mc_fail( "accept" , "%s: almost nothing is accepted (%.3g)" , w , sum[0] ) ;
  const double sc = sqrt( fabs( z[2]/z[0] - z[1]*z[1]/z[0]/z[0] ) ) , tr = itr/iw ;
  for( k = 1 ; k < 4 && !mc_nfail( ) ; k++ ) if( fabs( sum[k]/sum[0] - z[k]/z[0] ) > 0.006*sc*k ) mc_fail( "moment" , "%s: the mean of x^%d is %.6f, by the Wilson weight it is %.6f" , w , k , sum[k]/sum[0] , z[k]/z[0] ) ;
  for( a = 0 ; a < 3 && !mc_nfail( ) ; a++ ) { if( fabs( iso[a]/iw ) > 0.02*sqrt( tr ) ) mc_fail( "direction" , "%s: component %d of the rotation has mean %.5f" , w , a , iso[a]/iw ) ;
    for( b = 0 ; b < 3 ; b++ ) if( fabs( cov[a][b]/iw - ( a == b ? tr : 0 ) ) > 0.03*tr ) mc_fail( "isotropy" , "%s: components %d and %d of the rotation have covariance %.5f instead of %.5f" , w , a , b , cov[a][b]/iw , a == b ? tr : 0 ) ; }
 done :
  mcenv_draw = NULL ; free( U ) ; free_lat( lat ) ; fx_undims( ) ;
}
#endif
/* ------------------------------------------------------------ short histories against the Wilson distribution */
/* for every link: (N^2-1)/(2N) <Re tr U S^d> = beta/N < sum_a ( Im tr T^a U S^d )^2 > exactly, in any volume */
static void dyson( const cplx *U , double bn , double *lhs , double *rhs , double *spread )
{
  size_t i ; int mu , a , b ; double q = 0 ; *lhs = *rhs = 0 ;
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) { cplx S[ NN ] , W[ NN ] ; staple( S , U , i , mu ) ; m_mulad( W , L(U,i,mu) , S ) ; const double l = ( NC*NC - 1. )/( 2.*NC )*creal( m_tr( W ) ) ; *lhs += l ;
    /* sum_a f_a^2 = tr( A^2 )/2, A the traceless hermitian part of -iW */
    cplx A[ NN ] , t ; for( a = 0 ; a < NC ; a++ ) for( b = 0 ; b < NC ; b++ ) A[ a*NC+b ] = ( W[ a*NC+b ] - conj( W[ b*NC+a ] ) )/( 2*I ) ; t = m_tr( A )/NC ; for( a = 0 ; a < NC ; a++ ) A[ a*NC+a ] -= t ;
    const double r = bn*creal( m_trab( A , A ) )/2 ; *rhs += r ; q += ( l-r )*( l-r ) ; }
  *spread = sqrt( q ) ; /* of the difference, were the links independent */
}
static void chain( double beta , uint32_t seed , int nor , int T , int sweeps , int hot )
{
#if ND == 4
  const size_t d[4] = { 4,3,2,4 } ;
#elif ND == 3
  const size_t d[4] = { 4,3,4,2 } ;
#else
  const size_t d[] = { 4,3,2,2,2 } ;
#endif
  mcomp_config( T , POL_RR ) ; fx_dims( d ) ; cplx *U = fx_field( hot ? F_HOT : F_COLD , seed ) ; struct site *lat = fx_lat( U ) ; struct draughtboard db ; int s , k ; double A = 0 , B = 0 , D = 0 , P = 0 ; long n = 0 ;
  char w[ 120 ] ; snprintf( w , sizeof( w ) , "beta %g, seed %u, %d overrelaxations, %d threads, %s start" , beta , seed , nor , T , hot ? "hot" : "cold" ) ;
  if( quiet_cb( &db ) != GLU_SUCCESS || quiet_rng( seed ) != GLU_SUCCESS ) { mc_fail( "init" , "%s: set-up fails" , w ) ; return ; }
  for( s = 0 ; s < sweeps + 20 ; s++ ) {
#pragma omp parallel
    { hb_lattice( lat , NC/beta , db ) ; int o ; for( o = 0 ; o < nor ; o++ ) OR_lattice( lat , db ) ; }
    if( s >= 20 ) { cplx *N = fx_get( lat ) ; double l , r , q ; dyson( N , beta/NC , &l , &r , &q ) ; A += l ; B += r ; D += ( l-r )*( l-r ) ; P += plaq( N ) ; n++ ; if( !( s & 15 ) ) mc_distinct( fx_hash( N ) ) ; free( N ) ; }
    mc_trans( fxV*ND*( 1 + nor ) ) ; mc_progress( "%s, sweep %d" , w , s ) ; k = s ; }
  (void)k ; P /= n ; mc_traces( 1 ) ; mc_states( n ) ;
  const double strong = NC == 2 ? beta/4 : beta/( 2.*NC*NC ) , weak = 1 - ( NC*NC-1. )/( ND*beta ) ;
  mc_sample( "%s: Schwinger-Dyson %.5f (resolution %.4f), plaquette %.5f (strong %.4f, weak %.4f)" , w , A/B , 0.015 + 9*sqrt( D )/fabs( B ) , P , strong , weak ) ;
  if( !( fabs( A - B )/n < 0.015*fabs( B )/n + 9*sqrt( D )/n ) ) mc_fail( "dyson" , "%s: the two sides of the Schwinger-Dyson equation are %.6f and %.6f" , w , A/n , B/n ) ;
  if( beta <= 0.3*NC && !( fabs( P - strong ) < 0.012 ) ) mc_fail( "strong" , "%s: plaquette %.5f, at strong coupling %.5f" , w , P , strong ) ;
  if( beta >= 20*NC && !( fabs( ( 1-P )/( 1-weak ) - 1 ) < 0.08 ) ) mc_fail( "weak" , "%s: plaquette %.5f, at weak coupling %.5f" , w , P , weak ) ;
  free( U ) ; free_lat( lat ) ; free_cb( &db ) ; free_par_rng( ) ; fx_undims( ) ;
}
/* the same through the driver, which turns beta into a coupling of its own */
static void driver( double beta , uint32_t seed )
{
#if ND == 4
  const size_t d[4] = { 4,4,4,4 } ;
#elif ND == 3
  const size_t d[4] = { 8,6,6,6 } ;
#else
  const size_t d[] = { 4,4,2,4,2 } ;
#endif
  mcomp_config( 2 , POL_RR ) ; fx_dims( d ) ; cplx *U = fx_field( F_HOT , seed ) ; struct site *lat = fx_lat( U ) ; struct hb_info H ; memset( &H , 0 , sizeof( H ) ) ; size_t l ; double a , b , q ;
  H.beta = beta ; H.iterations = 20 ; H.Nmeasure = 5 ; H.Nor = 1 ; H.Nsave = 1000 ; H.therm = 20 ; H.continuation = GLU_FALSE ; Latt.flow = 0 ; Latt.Seed[0] = seed ; mc_progress( "driver" ) ;
  mc_capture( ) ; const int st = hb_update( lat , H , "traj" , OUTPUT_NCxNC , "x" ) ; free( mc_captured( &l ) ) ; mc_traces( 1 ) ; mc_states( fxV*ND ) ; mc_trans( 80*fxV*ND ) ;
  if( st != GLU_SUCCESS ) mc_fail( "status" , "beta %g: fails" , beta ) ;
  cplx *N = fx_get( lat ) ; dyson( N , beta/NC , &a , &b , &q ) ; mc_sample( "driver beta %g: Schwinger-Dyson %.4f (resolution %.3f), plaquette %.4f" , beta , a/b , 0.03 + 10*q/fabs( b ) , plaq( N ) ) ;
  if( !( fabs( a - b ) < 0.03*fabs( b ) + 10*q ) ) mc_fail( "driver" , "beta %g: the two sides of the Schwinger-Dyson equation are %.6f and %.6f after a run of the driver" , beta , a , b ) ;
  free( N ) ; free( U ) ; free_lat( lat ) ; fx_undims( ) ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C09" , "update" ) ; mc_timeout( 300 ) ; if( chdir( mc_scratch( ) ) ) { } pairs( ) ; attach_GLU( ) ; mcenv_membytes = 1LL << 40 ;
  int k , p , s , t ; size_t *sh ;
  const int pol[4] = { POL_RR , POL_LOW , POL_HIGH , POL_RRREV } ;
  { const size_t ex[] = { 1,2,3,4,5,6,7,8,10,13 } ; for( k = 0 ; k < 10 ; k++ ) if( mc_begin( "colouring, first extent %zu" , ex[k] ) ) {
      mcomp_config( 1 , POL_RR ) ; const int n = fx_shapes( &sh , ex , 10 , mc_thorough( ) ? 6000 : ND == 4 ? 1200 : 1000 ) ; for( s = 0 ; s < n && !mc_nfail( ) ; s++ ) { if( sh[ s*ND ] != ex[k] ) continue ; colours( sh + s*ND ) ; mc_progress( "shape %d" , s ) ; } mc_sample( "%ld shapes" , nsh ) ; free( sh ) ; mc_end( ) ; } }
  { const size_t ex[] = { 2,3,4,5,7 } ; const int n = fx_shapes( &sh , ex , 5 , mc_thorough( ) ? 256 : ND == 4 ? 108 : 64 ) ;
    static const char *hist[] = { "oh" , "ho" , "ooho" } ;
    for( s = 0 ; s < n ; s++ ) { const size_t *d = sh + s*ND ;
      char nm[ 64 ] ; int q = 0 ; for( k = 0 ; k < ND ; k++ ) q += sprintf( nm + q , "%s%zu" , k ? "x" : "" , d[k] ) ;
      if( mc_begin( "sweeps %s" , nm ) )
      { for( k = 0 ; k < F_NKIND ; k++ ) { if( k == F_CENTER || k == F_DIAG ) continue ; /* the reflection is undefined where a staple vanishes */
	  for( t = 1 ; t <= 4 && !mc_nfail( ) ; t++ ) for( p = 0 ; p < ( t == 1 ? 1 : 4 ) ; p++ ) { if( ( t + p + k + s )%( mc_thorough( ) ? 1 : 5 ) ) continue ; mcomp_config( t , pol[p] ) ; fx_dims( d ) ; cplx *U = fx_field( k , 7 + s ) ; history( U , hist[ ( s + p )%3 ] , t , p , fx_kindname[k] ) ; mc_progress( "sweeps" ) ; free( U ) ; fx_undims( ) ; } }
	mc_sample( "largest difference %.1e" , worst ) ; mc_end( ) ; } }
    free( sh ) ; }
  { const int n = fx_few_shapes( &sh , mc_thorough( ) ? 2 : 1 ) ; for( s = 0 ; s < n ; s++ ) if( mc_begin( "driver histories %d" , s ) ) { size_t th , fr , it , no , me ;
	for( th = 0 ; th < 3 ; th++ ) for( fr = 0 ; fr < 3 ; fr++ ) for( it = 0 ; it < 4 ; it++ ) for( no = 0 ; no < 3 ; no++ ) for( me = 1 ; me < 3 && !mc_nfail( ) ; me++ ) { if( th + it > 3 ) continue ; mcomp_config( 1 + ( th + no )%3 , pol[ it ] ) ; fx_dims( sh + s*ND ) ; cplx *U = fx_field( F_HOT , 7 + s ) ; whole( U , th , fr , it , no , me ) ; mc_progress( "driver" ) ; free( U ) ; fx_undims( ) ; }
	mc_end( ) ; } free( sh ) ; }
#if NC == 2
  { const double kap[] = { 0.01 , 0.3 , 0.7 , 0.98 , 1.02 , 2 , 5 , 20 , 300 } ; for( k = 0 ; k < 9 ; k++ ) if( mc_begin( "one step at beta k = %g" , kap[k] ) ) { distribution( kap[k] , 0 ) ; mc_end( ) ; }
    if( mc_begin( "one step with vanishing staples" ) ) { distribution( 1 , 1 ) ; mc_end( ) ; } }
#endif
  { const double b[] = { 0.2*NC , 1.0*NC , 2.0*NC , 4.0*NC , 30.0*NC } ; const int sw = mc_thorough( ) ? 1500 : NC == 2 ? 600 : NC == 3 ? 250 : 120 ;
    for( k = 0 ; k < 5 ; k++ ) { for( s = 0 ; s < 2 ; s++ ) { if( mc_begin( "chain %g %d" , b[k]/NC , s ) ) { chain( b[k] , 11 + s , s ? 2 : 0 , s ? 3 : 1 , sw , s ) ; mc_end( ) ; } }
      if( mc_begin( "driver %g" , b[k]/NC ) ) { driver( b[k] , 21 ) ; mc_end( ) ; } } }
  return mc_finish( ) ;
}
