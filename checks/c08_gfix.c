/* C08: a gauge fixing that reports convergence has reached the gauge condition, and
   whatever it reports the field it returns is a gauge transform of the one it was given */
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "fx.h"
#include "mc.h"
#include "mcomp.h"
#include "mcenv.h"
#include "GLUlib_wrap.h"
#include "GF_wrap.h"
#include "plaqs_links.h"
#include "gftests.h"
#include "MAG.h"
#include "Or.h"
#include "writers.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char where[ 240 ] ; static double worst_acc , worst_gt , worst_fun , worst_res ;
/* ---- independent definitions */
static void coords_delta( cplx *d , const cplx *U , size_t i , int dirs )
{ int mu ; cplx a[ NN ] ; m_zero( d ) ; for( mu = 0 ; mu < dirs ; mu++ ) { m_herm_proj( a , L( U , fx_dn( i , mu ) , mu ) ) ; m_add( d , a ) ; m_herm_proj( a , L( U , i , mu ) ) ; m_axpy( d , -1 , a ) ; } }
static int tof( size_t i ) { int x[ ND ] ; fx_coord( x , i ) ; return x[ ND-1 ] ; }
static int LT( void ) { return (int)Latt.dims[ ND-1 ] ; }
/* sum over a time slice (t<0: all) of the trace of the squared divergence, divided by the number of colours and sites */
static double theta( const cplx *U , int dirs , int t )
{ double s = 0 ; size_t i , n = 0 ; cplx d[ NN ] ; for( i = 0 ; i < fxV ; i++ ) { if( t >= 0 && tof( i ) != t ) continue ; n++ ; coords_delta( d , U , i , dirs ) ; s += creal( m_trab( d , d ) ) ; } return s/( NC*(double)n ) ; }
static double functional( const cplx *U , int dirs , int t )
{ double s = 0 ; size_t i , n = 0 ; int mu ; for( i = 0 ; i < fxV ; i++ ) { if( t >= 0 && tof( i ) != t ) continue ; n++ ; for( mu = 0 ; mu < dirs ; mu++ ) s += creal( m_tr( L( U , i , mu ) ) ) ; } return 1 - s/( (double)NC*n*dirs ) ; }
static double fullunit( const cplx *U ) { double w = 0 ; size_t i ; int mu ; for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) { const double u = m_unit( L( U , i , mu ) ) ; if( !( u <= w ) ) w = u ; } return w ; }
/* transform along a spanning tree so that its links are one */
static cplx *tree( const cplx *U )
{
  cplx *g = calloc( fxV*NN , sizeof( cplx ) ) , *W = malloc( fxV*ND*NN*sizeof( cplx ) ) ; char *in = calloc( fxV , 1 ) ; size_t *q = malloc( fxV*sizeof( size_t ) ) , h = 0 , n = 0 , i ; int mu ;
  m_id( g ) ; in[ 0 ] = 1 ; q[ n++ ] = 0 ;
  while( h < n ) { i = q[ h++ ] ; for( mu = 0 ; mu < ND ; mu++ ) { const size_t u = fx_up( i , mu ) , d = fx_dn( i , mu ) ; if( !in[u] ) { in[u] = 1 ; q[ n++ ] = u ; m_mul( g + u*NN , g + i*NN , L( U , i , mu ) ) ; } if( !in[d] ) { in[d] = 1 ; q[ n++ ] = d ; m_mulad( g + d*NN , g + i*NN , L( U , d , mu ) ) ; } } }
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) { cplx a[ NN ] ; m_mul( a , g + i*NN , L( U , i , mu ) ) ; m_mulad( L( W , i , mu ) , a , g + fx_up( i , mu )*NN ) ; }
  free( g ) ; free( in ) ; free( q ) ; return W ;
}
#define N2 NN
/* smallest eigenvalue and eigenvector of a hermitian N2 x N2 matrix, cyclic Jacobi */
static double smallest( cplx *A , cplx *v )
{
  static cplx V[ N2*N2 ] ; int p , q , k , s ; memset( V , 0 , sizeof( V ) ) ; for( p = 0 ; p < N2 ; p++ ) V[ p*N2 + p ] = 1 ;
  for( s = 0 ; s < 60 ; s++ ) { double off = 0 , dia = 0 ; for( p = 0 ; p < N2 ; p++ ) for( q = 0 ; q < N2 ; q++ ) { const double a = cabs( A[ p*N2 + q ] ) ; if( p == q ) dia += a*a ; else off += a*a ; } if( off <= 1e-30*dia ) break ;
    for( p = 0 ; p < N2 ; p++ ) for( q = p + 1 ; q < N2 ; q++ ) { const cplx a = A[ p*N2 + q ] ; const double r = cabs( a ) ; if( r == 0 ) continue ; const cplx ph = a/r ; const double th = 0.5*atan2( 2*r , creal( A[ q*N2 + q ] - A[ p*N2 + p ] ) ) , c = cos( th ) , sn = sin( th ) ;
      for( k = 0 ; k < N2 ; k++ ) { const cplx x = A[ k*N2 + p ] , y = A[ k*N2 + q ] ; A[ k*N2 + p ] = c*x - sn*conj( ph )*y ; A[ k*N2 + q ] = sn*ph*x + c*y ; const cplx u = V[ k*N2 + p ] , w = V[ k*N2 + q ] ; V[ k*N2 + p ] = c*u - sn*conj( ph )*w ; V[ k*N2 + q ] = sn*ph*u + c*w ; }
      for( k = 0 ; k < N2 ; k++ ) { const cplx x = A[ p*N2 + k ] , y = A[ q*N2 + k ] ; A[ p*N2 + k ] = c*x - sn*ph*y ; A[ q*N2 + k ] = sn*conj( ph )*x + c*y ; } } }
  int b = 0 ; for( p = 1 ; p < N2 ; p++ ) if( creal( A[ p*N2 + p ] ) < creal( A[ b*N2 + b ] ) ) b = p ; for( k = 0 ; k < N2 ; k++ ) v[ k ] = V[ k*N2 + b ] ; return creal( A[ b*N2 + b ] ) ;
}
/* how far X is from every gauge transform of U: both are brought to tree gauge, where
   gauge equivalent fields differ by one global rotation c with X c = c W for every link */
static double inequivalent( const cplx *U , const cplx *X0 )
{
  cplx *W = tree( U ) , *X = tree( X0 ) ; const size_t n = fxV*ND , step = n > 60 ? n/60 : 1 ; size_t l , m ; int a , b , p ; double w = 0 ; static cplx M[ N2*N2 ] , K[ N2*N2 ] , c[ NN ] ; memset( M , 0 , sizeof( M ) ) ;
  for( l = 0 ; l < n ; l++ ) { const double d = cabs( m_tr( W + l*NN ) - m_tr( X + l*NN ) ) ; if( !( d <= w ) ) w = d ; m = ( l + 7 ) % n ; cplx x[ NN ] , y[ NN ] ; m_mul( x , W + l*NN , W + m*NN ) ; m_mul( y , X + l*NN , X + m*NN ) ; const double e = cabs( m_tr( x ) - m_tr( y ) ) ; if( !( e <= w ) ) w = e ; }
  for( l = 0 ; l < n ; l += step ) { memset( K , 0 , sizeof( K ) ) ; for( a = 0 ; a < NC ; a++ ) for( b = 0 ; b < NC ; b++ ) for( p = 0 ; p < NC ; p++ ) { K[ ( a*NC + b )*N2 + p*NC + b ] += X[ l*NN + a*NC + p ] ; K[ ( a*NC + b )*N2 + a*NC + p ] -= W[ l*NN + p*NC + b ] ; }
    int i , j , k ; for( k = 0 ; k < N2 ; k++ ) for( i = 0 ; i < N2 ; i++ ) { const cplx z = conj( K[ k*N2 + i ] ) ; if( z == 0 ) continue ; for( j = 0 ; j < N2 ; j++ ) M[ i*N2 + j ] += z*K[ k*N2 + j ] ; } }
  const double ev = smallest( M , c ) ; const double d = sqrt( fabs( ev ) ) ; if( !( d <= 1e-6 ) ) w += d ;
  /* a rotation: then it must carry every link */
  cplx cc[ NN ] ; double nrm = 0 ; for( a = 0 ; a < NN ; a++ ) nrm += creal( c[a]*conj( c[a] ) ) ; m_cp( cc , c ) ; m_scale( cc , sqrt( NC/nrm ) ) ; cplx t[ NN ] , u[ NN ] ; m_mulad( t , cc , cc ) ; for( a = 0 ; a < NC ; a++ ) t[ a*NC + a ] -= 1 ; double off = 0 ; for( a = 0 ; a < NN ; a++ ) if( cabs( t[a] ) > off ) off = cabs( t[a] ) ;
  if( off < 1e-6 ) for( l = 0 ; l < n ; l++ ) { m_mul( t , X + l*NN , cc ) ; m_mul( u , cc , W + l*NN ) ; const double e = m_dist( t , u ) ; if( !( e <= w ) ) w = e ; }
  free( W ) ; free( X ) ; return w ;
}
/* ---- the operations */
static int T , POL ;
typedef struct { int type , iters , digits , kind , seed ; double alpha ; int infile ; } par ;
static char *said ; static int status ; static double plaq0 ;
static double sayd( const char *tag ) { char *s = said ? strstr( said , tag ) : NULL , *n ; while( s && ( n = strstr( s + 1 , tag ) ) ) s = n ; return s ? atof( s + strlen( tag ) ) : NAN ; }
static int count( const char *tag ) { int n = 0 ; const char *s = said ; while( s && ( s = strstr( s , tag ) ) ) n++ , s++ ; return n ; }
static cplx *fix( const par *p , const cplx *U )
{
  struct site *lat = fx_lat( U ) ; struct gf_info G ; memset( &G , 0 , sizeof( G ) ) ; G.type = p->type ; G.max_iters = p->iters ; G.accuracy = pow( 10.0 , -p->digits ) ;
  Latt.gf_alpha = p->alpha ; Latt.Seed[ 0 ] = 911 + p->seed ; Latt.head = HIREP_HEADER ; Latt.flow = 3 ; size_t l ; mc_capture( ) ;
  unlink( "in.cfg" ) ; if( p->infile && write_configuration( lat , "in.cfg" , OUTPUT_HIREP , "x" ) == GLU_FAILURE ) abort( ) ;
  fx_put( lat , U ) ; status = GF_wrap( "in.cfg" , lat , G ) ; free( said ) ; said = mc_captured( &l ) ; unlink( "in.cfg" ) ;
  cplx *X = fx_get( lat ) ; free_lat( lat ) ; mc_trans( 1 ) ; mc_traces( 1 ) ; return X ;
}
/* what holds after every operation */
static int transform( const cplx *U , const cplx *X , int reuniting )
{
  const double u = fullunit( X ) ; if( !( u < 1e-10 ) ) { mc_fail( "unitary" , "%s: links are off special unitarity by %g" , where , u ) ; return 0 ; }
  const double d = inequivalent( U , X ) ; if( d > worst_gt ) worst_gt = d ; if( !( d < 1e-8 ) ) { mc_fail( "transform" , "%s: the field returned is not a gauge transform of the input (%g)" , where , d ) ; return 0 ; }
  mc_distinct( fx_hash( X ) ) ; (void)reuniting ; return 1 ;
}
static int coulomb_like( int type ) { return type == GLU_COULOMB_FIX || type == GLU_COULOMB_RESIDUAL_FIX ; }
static void gauge_case( const par *p , const cplx *U )
{
  cplx *X = fix( p , U ) ; const double acc = pow( 10.0 , -p->digits ) ; int t ; mc_states( 1 ) ;
  if( !transform( U , X , 1 ) ) { free( X ) ; return ; }
  const int ok = status != GLU_FAILURE ;
#ifdef OVERRELAXED_GF
  const double slack = 100 , zero = 1e-12 ; /* its accuracy is a change of the functional */
#else
  const double slack = 1 , zero = 1e-27 ;
#endif
  if( p->type == GLU_LANDAU_FIX ) {
    const double th = 2*theta( X , ND , -1 ) , f0 = functional( U , ND , -1 ) , f1 = functional( X , ND , -1 ) ;
    if( ok ) {
      if( th/acc > worst_acc ) worst_acc = th/acc ;
      if( !( th <= slack*acc + zero ) ) mc_fail( "accuracy" , "%s: converged, but the divergence squared is %.3e" , where , th ) ;
      if( f1 - f0 > worst_fun ) worst_fun = f1 - f0 ;
#ifdef LUXURY_GAUGE
      const double rise = 1 ; /* the best of several random copies, the input is not one of them */
#else
      const double rise = 1e-11 ;
#endif
      if( !( f1 <= f0 + rise ) ) mc_fail( "functional" , "%s: the functional went from %.12f to %.12f" , where , f0 , f1 ) ;
      const double said_f = sayd( "[GF] Functional :: " ) , said_a = sayd( "[GF] Accuracy :: " ) ; if( !( fabs( said_f - f1 ) < 1e-12 ) ) mc_fail( "printed" , "%s: prints the functional %.14f, it is %.14f" , where , said_f , f1 ) ;
#ifndef OVERRELAXED_GF
      if( !( said_a <= acc ) ) mc_fail( "printed" , "%s: converged with accuracy %g" , where , said_a ) ;
#else
      (void)said_a ;
#endif
      const double it = sayd( "[GF] Iters :: " ) ; if( !( it >= 0 && it <= 1e6 ) || (int)it != status ) mc_fail( "iterations" , "%s: prints %.0f iterations, returns %d" , where , it , status ) ;
    }
    mc_sample( "%d %s" , p->digits , ok ? "converged" : "failed" ) ;
  } else if( coulomb_like( p->type ) ) {
    int bad = 0 ; for( t = 0 ; t < LT( ) ; t++ ) { const double th = theta( X , ND-1 , t ) , f0 = functional( U , ND-1 , t ) , f1 = functional( X , ND-1 , t ) ;
      if( ok && th/acc > worst_acc ) worst_acc = th/acc ;
      if( !( th <= slack*acc + zero ) ) { bad++ ; if( ok ) mc_fail( "accuracy" , "%s: converged, but the divergence squared of slice %d is %.3e" , where , t , th ) ; }
      if( ok && f1 - f0 > worst_fun ) worst_fun = f1 - f0 ; if( ok && !( f1 <= f0 + 1e-11 ) ) mc_fail( "functional" , "%s: the functional of slice %d went from %.12f to %.12f" , where , t , f0 , f1 ) ; }
    const int conv = count( "Stopped by convergence" ) ; if( LT( ) - bad < conv ) mc_fail( "printed" , "%s: %d slices are said to have converged, %d have" , where , conv , LT( ) - bad ) ;
    if( ok && conv != LT( ) ) mc_fail( "accuracy" , "%s: success, but only %d of %d slices are said to have converged" , where , conv , LT( ) ) ;
    if( p->type == GLU_COULOMB_RESIDUAL_FIX && ok ) for( t = 0 ; t < LT( ) - 1 ; t++ ) { /* the average temporal link of every slice but the last is where its trace is stationary */
      cplx s[ NN ] , h[ NN ] ; m_zero( s ) ; size_t i ; int k ; double w = 0 ; for( i = 0 ; i < fxV ; i++ ) if( tof( i ) == t ) m_axpy( s , 1.0/Latt.Lcu , L( X , i , ND-1 ) ) ; m_herm_proj( h , s ) ; for( k = 0 ; k < NN ; k++ ) if( cabs( h[k] ) > w ) w = cabs( h[k] ) ; if( w > worst_res ) worst_res = w ;
      if( !( w < 1e-6 ) ) mc_fail( "residual" , "%s: the average temporal link of slice %d is rotated by %g" , where , t , w ) ; }
    mc_sample( "%d %s" , p->digits , ok ? "converged" : "failed" ) ;
  } else { size_t i ; int mu , nu , x[ ND ] , first = p->type == GLU_MAG_FIX ? 0 : ND-1 ; double w = 0 ; cplx one[ NN ] ; m_id( one ) ;
    if( !ok ) mc_fail( "status" , "%s: fails" , where ) ;
    for( i = 0 ; i < fxV ; i++ ) { fx_coord( x , i ) ; for( mu = first ; mu < ND ; mu++ ) { int in = x[mu] < (int)Latt.dims[mu] - 1 ; if( p->type == GLU_MAG_FIX ) for( nu = mu + 1 ; nu < ND ; nu++ ) if( x[nu] ) in = 0 ; if( !in ) continue ; const double d = m_dist( L( X , i , mu ) , one ) ; if( !( d <= w ) ) w = d ; } }
    if( !( w < 1e-10 ) ) mc_fail( "axial" , "%s: a link of the tree differs from one by %g" , where , w ) ; }
  /* once fixed, fixing again leaves it alone */
#ifndef LUXURY_GAUGE
  if( p->type == GLU_LANDAU_FIX && ok && !mc_nfail( ) ) { par r = *p ; cplx *Y = fix( &r , X ) ; if( status == GLU_FAILURE ) mc_fail( "again" , "%s: the fixed field is not accepted when it is fixed again" , where ) ; else if( functional( Y , ND , -1 ) > functional( X , ND , -1 ) + 1e-6 ) mc_fail( "again" , "%s: fixing it again raises the functional from %.12f to %.12f" , where , functional( X , ND , -1 ) , functional( Y , ND , -1 ) ) ; transform( U , Y , 1 ) ; free( Y ) ; }
#endif
  free( X ) ;
}
#ifndef OVERRELAXED_GF
/* the over-relaxed versions, which the default build holds too */
static void over_case( const par *p , const cplx *U , double or )
{
  struct site *lat = fx_lat( U ) ; double th = 0 ; size_t l ; const double acc = pow( 10.0 , -p->digits ) ; int t ; Latt.gf_alpha = or ; Latt.Seed[ 0 ] = 77 + p->seed ; mc_capture( ) ;
  const int it = p->type == GLU_LANDAU_FIX ? OrLandau( lat , &th , p->iters , acc , or ) : OrCoulomb( lat , &th , p->iters , acc , or ) ; free( said ) ; said = mc_captured( &l ) ; cplx *X = fx_get( lat ) ; free_lat( lat ) ; mc_trans( 1 ) ; mc_traces( 1 ) ; mc_states( 1 ) ;
  if( transform( U , X , 0 ) ) {
    if( p->type == GLU_LANDAU_FIX ) { const double f0 = functional( U , ND , -1 ) , f1 = functional( X , ND , -1 ) , g = theta( X , ND , -1 ) ;
      if( it >= 0 && it < p->iters ) { if( !( f1 <= f0 + 1e-9 ) ) mc_fail( "functional" , "%s: the functional went from %.12f to %.12f" , where , f0 , f1 ) ; if( !( fabs( th ) <= acc ) ) mc_fail( "accuracy" , "%s: stops after %d iterations at %g" , where , it , th ) ; if( p->digits >= 12 && !( g < 1e-6 ) ) mc_fail( "accuracy" , "%s: stops with a squared divergence of %g" , where , g ) ; if( g > worst_acc ) worst_acc = g ; } }
    else for( t = 0 ; t < LT( ) ; t++ ) { const double f0 = functional( U , ND-1 , t ) , f1 = functional( X , ND-1 , t ) , g = theta( X , ND-1 , t ) ; const int conv = count( "Stopped by convergence" ) == LT( ) ; if( conv && !( f1 <= f0 + 1e-9 ) ) mc_fail( "functional" , "%s: the functional of slice %d went from %.12f to %.12f" , where , t , f0 , f1 ) ; if( conv && p->digits >= 12 && !( g < 1e-6 ) ) mc_fail( "accuracy" , "%s: stops with a squared divergence of %g in slice %d" , where , g , t ) ; if( conv && g > worst_acc ) worst_acc = g ; } }
  free( X ) ;
}
#endif
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C08" , "gfix" ) ; mc_timeout( 300 ) ; attach_GLU( ) ; mcenv_membytes = 1LL << 40 ; const int quick = !mc_thorough( ) ; size_t *sh ; int ns , s , k , b , a , al ;
  static const int types[] = { GLU_LANDAU_FIX , GLU_COULOMB_FIX , GLU_COULOMB_RESIDUAL_FIX } ; static const char *tname[] = { "landau" , "coulomb" , "coulomb-residual" } ;
  static const int budget[] = { 1 , 2 , 5 , 20 , 60 , 400 } , digits[] = { 2 , 6 , 10 , 14 , 20 } ; static const double alpha[] = { 0.08 , 0.04 , 0.12 } ;
  ns = fx_few_shapes( &sh , quick ? 1 : 2 ) ; int ty ; plaq0 = 0 ;
#define SETUP { if( chdir( mc_scratch( ) ) ) { } mcomp_config( T , POL ) ; fx_dims( sh + s*ND ) ; }
#define NAME( fmt , ... ) snprintf( where , sizeof( where ) , fmt " on %s, %s field, %d threads" , __VA_ARGS__ , fx_dimstr( ) , fx_kindname[ kinds[k] ] , T )
  static const int kinds[] = { F_HOT , F_MED , F_WEAK , F_DIAG , F_CENTER , F_COLD } ;
  for( ty = 0 ; ty < 3 ; ty++ ) for( s = 0 ; s < ns ; s++ ) for( k = 0 ; k < 6 ; k++ ) for( b = 0 ; b < 6 ; b++ ) {
    if( quick && k > 2 && ( s + b + k )%3 ) continue ;
    if( mc_begin( "%s shape %d field %d budget %d" , tname[ty] , s , k , b ) ) { T = 1 + ( s + b + k )%3 ; POL = ( s + k )%4 ; SETUP cplx *U = fx_field( kinds[k] , 11 + s ) ;
      for( a = 0 ; a < 5 ; a++ ) for( al = 0 ; al < ( quick ? 1 : 3 ) ; al++ ) { if( mc_nfail( ) ) continue ; par p = { types[ty] , budget[b] , digits[a] , kinds[k] , s + a , alpha[al] , 1 } ; NAME( "%s, %d iterations, accuracy 1e-%d, step %g" , tname[ty] , p.iters , p.digits , p.alpha ) ; mc_progress( "%s" , where ) ; gauge_case( &p , U ) ; }
      free( U ) ; fx_undims( ) ; mc_sample( "worst accuracy ratio %.2g, equivalence %.2g, functional %.2g, residual %.2g" , worst_acc , worst_gt , worst_fun , worst_res ) ; mc_end( ) ; } }
  /* a restart that cannot read its configuration again */
  for( ty = 0 ; ty < 1 ; ty++ ) for( s = 0 ; s < ns ; s++ ) if( mc_begin( "no configuration %s shape %d" , tname[ty] , s ) ) { k = 0 ; T = 1 + s%3 ; POL = s%4 ; SETUP cplx *U = fx_field( F_HOT , 5 ) ; for( b = 0 ; b < 4 ; b++ ) for( a = 1 ; a < 5 ; a++ ) { if( mc_nfail( ) ) continue ; par p = { types[ty] , budget[b] , digits[a] , 0 , 1 , 0.08 , 0 } ; NAME( "%s without the file, %d iterations, accuracy 1e-%d" , tname[ty] , p.iters , p.digits ) ; mc_progress( "%s" , where ) ; gauge_case( &p , U ) ; } free( U ) ; fx_undims( ) ; mc_end( ) ; }
  /* axial gauges on every shape */
  { const size_t ext[] = { 2 , 3 , 4 , 5 } ; size_t *all ; const int na = fx_shapes( &all , ext , quick ? 3 : 4 , quick ? 100 : 300 ) ; size_t *keep = sh ; sh = all ; for( s = 0 ; s < na ; s++ ) for( ty = 0 ; ty < 2 ; ty++ ) if( mc_begin( "%s shape %d" , ty ? "axial" : "maximal-axial" , s ) ) { for( T = 1 ; T <= 3 ; T++ ) for( k = 0 ; k < 6 ; k++ ) { if( mc_nfail( ) ) continue ; POL = ( s + T )%4 ; SETUP cplx *U = fx_field( kinds[k] , 3 + s ) ; par p = { ty ? GLU_AXIALT_FIX : GLU_MAG_FIX , 1 , 1 , 0 , 0 , 0.08 , 0 } ; NAME( "%s" , ty ? "axial" : "maximal axial" ) ; mc_progress( "%s" , where ) ; gauge_case( &p , U ) ; free( U ) ; fx_undims( ) ; } mc_end( ) ; } sh = keep ; free( all ) ; }
#ifndef OVERRELAXED_GF
  static const double ors[] = { 0.0 , 0.3 , 0.7 } ;
  for( ty = 0 ; ty < 2 ; ty++ ) for( s = 0 ; s < ns ; s++ ) for( k = 0 ; k < 6 ; k++ ) for( T = 1 ; T <= 3 ; T++ ) if( mc_begin( "overrelaxed %s shape %d field %d threads %d" , tname[ty] , s , k , T ) ) { POL = s%4 ; SETUP cplx *U = fx_field( kinds[k] , 21 + s ) ; for( b = 0 ; b < 6 ; b += 2 ) for( a = 1 ; a < 5 ; a += 1 ) for( al = 0 ; al < 3 ; al++ ) { if( mc_nfail( ) || ( quick && ( a + al + b + T )%3 ) ) continue ; par p = { types[ty] , b == 4 ? 500 : budget[b] , a == 4 ? 15 : 3*a , kinds[k] , s , 0 , 0 } ; NAME( "over-relaxed %s, %d iterations, accuracy 1e-%d, parameter %g" , tname[ty] , p.iters , p.digits , ors[al] ) ; mc_progress( "%s" , where ) ; over_case( &p , U , ors[al] ) ; } free( U ) ; fx_undims( ) ; mc_sample( "overrelaxed %s: worst divergence %.1e" , tname[ty] , worst_acc ) ; mc_end( ) ; }
#endif
  return mc_finish( ) ;
}
