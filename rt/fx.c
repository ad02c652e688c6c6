#include "fx.h"
#include "init.h"
#include "geometry.h"
#include "GLU_malloc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

struct latt_info Latt ;
size_t fxV ;
static int have = 0 ;
void fx_dims( const size_t d[ ND ] )
{
  int mu ;
  if( have ) { free_latt() ; }
  fxV = 1 ;
  for( mu = 0 ; mu < ND ; mu++ ) { Latt.dims[mu] = d[mu] ; fxV *= d[mu] ; }
  init_latt() ;
  have = 1 ;
}
void fx_undims( void ) { if( have ) free_latt() ; have = 0 ; }
size_t fx_site( const int x[ ND ] ) { size_t i = 0 , s = 1 ; int mu ; for( mu = 0 ; mu < ND ; mu++ ) { i += x[mu]*s ; s *= Latt.dims[mu] ; } return i ; }
void fx_coord( int x[ ND ] , size_t i ) { int mu ; for( mu = 0 ; mu < ND ; mu++ ) { x[mu] = i % Latt.dims[mu] ; i /= Latt.dims[mu] ; } }
size_t fx_move( size_t i , int mu , int n )
{ int x[ ND ] ; int d = Latt.dims[mu] ; fx_coord( x , i ) ; x[mu] = ( ( x[mu] + n ) % d + d ) % d ; return fx_site( x ) ; }
size_t fx_up( size_t i , int mu ) { return fx_move( i , mu , 1 ) ; }
size_t fx_dn( size_t i , int mu ) { return fx_move( i , mu , -1 ) ; }
const char *fx_dimstr( void )
{ static char b[ 64 ] ; int mu , n = 0 ; for( mu = 0 ; mu < ND ; mu++ ) n += sprintf( b+n , "%s%zu" , mu ? "x" : "" , Latt.dims[mu] ) ; return b ; }
int fx_shapes( size_t **out , const size_t *list , int n , size_t vmax )
{
  int tot = 1 , k , mu , c = 0 ;
  for( mu = 0 ; mu < ND ; mu++ ) tot *= n ;
  *out = malloc( sizeof( size_t )*ND*tot ) ;
  for( k = 0 ; k < tot ; k++ ) {
    size_t d[ ND ] , v = 1 ; int r = k ;
    for( mu = ND-1 ; mu >= 0 ; mu-- ) { d[mu] = list[ r % n ] ; r /= n ; v *= d[mu] ; }
    if( v > vmax ) continue ;
    memcpy( *out + ND*c , d , sizeof( d ) ) ; c++ ;
  }
  return c ;
}
int fx_few_shapes( size_t **out , int level )
{
#if ND == 4
  static const size_t s[][ 4 ] = { {2,2,2,2},{3,2,2,2},{2,3,2,4},{4,2,3,2},{2,2,2,3},{4,4,2,2},{2,2,4,4},{3,3,3,3},{4,4,4,4},{2,4,2,6},{6,2,2,2},{5,3,2,2},{2,2,5,3},{4,4,4,8} } ;
  static const size_t lng[][ 4 ] = { {2,2,2,9},{10,2,2,2},{2,2,13,2},{2,17,2,2} } ;
  const int lim[] = { 3 , 6 , 9 , 14 } ;
#elif ND == 5
  static const size_t s[][ 5 ] = { {2,2,2,2,2},{3,2,2,2,2},{2,2,3,2,2},{2,2,2,2,3},{2,2,2,3,4},{4,2,2,2,2},{2,3,2,4,2},{3,3,2,2,3},{4,2,2,4,2},{3,3,3,3,3},{2,2,4,2,4},{2,2,2,4,6} } ;
  static const size_t lng[][ 5 ] = { {2,2,2,2,9},{10,2,2,2,2},{2,2,13,2,2},{2,2,2,9,2} } ;
  const int lim[] = { 2 , 4 , 7 , 12 } ;
#elif ND == 2
  static const size_t s[][ 2 ] = { {2,2},{3,2},{2,3},{4,2},{2,4},{4,4},{3,3},{5,3},{2,6},{6,4},{8,4},{5,7} } ;
  static const size_t lng[][ 2 ] = { {2,13},{17,2},{3,19},{12,33} } ;
  const int lim[] = { 3 , 6 , 9 , 12 } ;
#else
  static const size_t s[][ 3 ] = { {2,2,2},{3,2,2},{2,3,4},{4,2,2},{2,2,3},{4,4,4},{3,3,3},{2,4,6},{6,2,4},{5,3,2},{2,5,3},{4,4,8} } ;
  static const size_t lng[][ 3 ] = { {2,2,13},{17,2,2},{2,19,2},{2,2,33} } ;
  const int lim[] = { 3 , 6 , 8 , 12 } ;
#endif
  const int l = level > 3 ? 3 : level , n = lim[ l ] , e = l + 1 ;
  *out = malloc( ( n + e )*ND*sizeof( size_t ) ) ;
  memcpy( *out , s , n*ND*sizeof( size_t ) ) ;
  memcpy( *out + n*ND , lng , e*ND*sizeof( size_t ) ) ; /* long ones too */
  return n + e ;
}
int fx_long( size_t **sh , int n , size_t min , size_t vmax )
{
  static const size_t l[] = { 9 , 10 , 13 , 16 , 17 , 21 , 32 , 33 } ; int a , d , m , w ;
  *sh = realloc( *sh , ( n + 16*ND )*ND*sizeof( size_t ) ) ;
  for( a = 0 ; a < 8 ; a++ ) for( d = 0 ; d < ND ; d++ ) for( w = 0 ; w < 2 ; w++ ) {
    size_t v = 1 ; for( m = 0 ; m < ND ; m++ ) v *= (*sh)[ n*ND + m ] = m == d ? l[a] : w && m == ( d + 1 )%ND ? min + 1 : min ;
    if( v <= vmax ) n++ ;
  }
  return n ;
}
/* ------------------------------------------------------------------ matrices */
void m_zero( cplx *a ) { int i ; for( i = 0 ; i < NN ; i++ ) a[i] = 0 ; }
void m_id( cplx *a ) { int i ; for( i = 0 ; i < NN ; i++ ) a[i] = ( i/NC == i%NC ) ? 1 : 0 ; }
void m_cp( cplx *a , const cplx *b ) { memcpy( a , b , NN*sizeof( cplx ) ) ; }
void m_mul( cplx *r , const cplx *a , const cplx *b )
{ cplx t[ NN ] ; int i , j , k ; for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) { cplx s = 0 ; for( k = 0 ; k < NC ; k++ ) s += a[i*NC+k]*b[k*NC+j] ; t[i*NC+j] = s ; } m_cp( r , t ) ; }
void m_dag( cplx *r , const cplx *a ) { cplx t[ NN ] ; int i , j ; for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) t[i*NC+j] = conj( a[j*NC+i] ) ; m_cp( r , t ) ; }
void m_mulad( cplx *r , const cplx *a , const cplx *b ) { cplx t[ NN ] ; m_dag( t , b ) ; m_mul( r , a , t ) ; }
void m_muldb( cplx *r , const cplx *a , const cplx *b ) { cplx t[ NN ] ; m_dag( t , a ) ; m_mul( r , t , b ) ; }
void m_add( cplx *r , const cplx *a ) { int i ; for( i = 0 ; i < NN ; i++ ) r[i] += a[i] ; }
void m_axpy( cplx *r , cplx s , const cplx *a ) { int i ; for( i = 0 ; i < NN ; i++ ) r[i] += s*a[i] ; }
void m_scale( cplx *r , cplx s ) { int i ; for( i = 0 ; i < NN ; i++ ) r[i] *= s ; }
cplx m_tr( const cplx *a ) { cplx s = 0 ; int i ; for( i = 0 ; i < NC ; i++ ) s += a[i*NC+i] ; return s ; }
cplx m_trab( const cplx *a , const cplx *b ) { cplx s = 0 ; int i , j ; for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) s += a[i*NC+j]*b[j*NC+i] ; return s ; }
cplx m_det( const cplx *a )
{
  cplx m[ NN ] , d = 1 ; int i , j , k ; m_cp( m , a ) ;
  for( k = 0 ; k < NC ; k++ ) {
    int p = k ; for( i = k+1 ; i < NC ; i++ ) if( cabs( m[i*NC+k] ) > cabs( m[p*NC+k] ) ) p = i ;
    if( cabs( m[p*NC+k] ) == 0 ) return 0 ;
    if( p != k ) { d = -d ; for( j = 0 ; j < NC ; j++ ) { cplx t = m[k*NC+j] ; m[k*NC+j] = m[p*NC+j] ; m[p*NC+j] = t ; } }
    d *= m[k*NC+k] ;
    for( i = k+1 ; i < NC ; i++ ) { cplx f = m[i*NC+k]/m[k*NC+k] ; for( j = k ; j < NC ; j++ ) m[i*NC+j] -= f*m[k*NC+j] ; }
  }
  return d ;
}
double m_dist( const cplx *a , const cplx *b ) { double d = 0 ; int i ; for( i = 0 ; i < NN ; i++ ) { double e = cabs( a[i]-b[i] ) ; if( !( e <= d ) ) d = e ; if( isnan( e ) ) return INFINITY ; } return d ; }
double m_unit( const cplx *a ) { cplx t[ NN ] , id[ NN ] ; m_mulad( t , a , a ) ; m_id( id ) ; double d = m_dist( t , id ) , e = cabs( m_det( a ) - 1 ) ; if( isnan( e ) || isnan( d ) ) return INFINITY ; return d > e ? d : e ; }
void m_exp( cplx *r , const cplx *a )
{
  cplx x[ NN ] , t[ NN ] , s[ NN ] ; double n = 0 ; int i , k , q = 0 ;
  for( i = 0 ; i < NN ; i++ ) n += cabs( a[i] ) ;
  while( n > 0.25 ) { n *= 0.5 ; q++ ; }
  m_cp( x , a ) ; m_scale( x , ldexp( 1.0 , -q ) ) ;
  m_id( s ) ; m_id( t ) ;
  for( k = 1 ; k < 24 ; k++ ) { m_mul( t , t , x ) ; m_scale( t , 1.0/k ) ; m_add( s , t ) ; }
  for( k = 0 ; k < q ; k++ ) m_mul( s , s , s ) ;
  m_cp( r , s ) ;
}
void m_expi( cplx *r , const cplx *h ) { cplx t[ NN ] ; m_cp( t , h ) ; m_scale( t , I ) ; m_exp( r , t ) ; }
void m_reunit( cplx *u )
{
  int i , j , k ;
  for( i = 0 ; i < NC ; i++ ) {
    for( int rep = 0 ; rep < 2 ; rep++ )
      for( k = 0 ; k < i ; k++ ) { cplx d = 0 ; for( j = 0 ; j < NC ; j++ ) d += conj( u[k*NC+j] )*u[i*NC+j] ; for( j = 0 ; j < NC ; j++ ) u[i*NC+j] -= d*u[k*NC+j] ; }
    double n = 0 ; for( j = 0 ; j < NC ; j++ ) n += creal( u[i*NC+j]*conj( u[i*NC+j] ) ) ;
    n = 1/sqrt( n ) ; for( j = 0 ; j < NC ; j++ ) u[i*NC+j] *= n ;
  }
  cplx d = m_det( u ) ;
  for( j = 0 ; j < NC ; j++ ) u[(NC-1)*NC+j] *= conj( d )/cabs( d ) ;
}
void m_herm_proj( cplx *h , const cplx *u )
{
  cplx d[ NN ] ; int i ; m_dag( d , u ) ;
  for( i = 0 ; i < NN ; i++ ) h[i] = ( u[i] - d[i] )/( 2*I ) ;
  cplx t = m_tr( h )/NC ; for( i = 0 ; i < NC ; i++ ) h[i*NC+i] -= t ;
}
/* cyclic complex Jacobi */
int m_eig_herm( double *ev , cplx *v , const cplx *h )
{
  cplx a[ NN ] ; int p , q , k , sw ; m_cp( a , h ) ; m_id( v ) ;
  for( sw = 0 ; sw < 100 ; sw++ ) {
    double off = 0 ; for( p = 0 ; p < NC ; p++ ) for( q = 0 ; q < NC ; q++ ) if( p != q ) off += cabs( a[p*NC+q] ) ;
    if( off < 1e-15 ) break ;
    for( p = 0 ; p < NC ; p++ ) for( q = p+1 ; q < NC ; q++ ) {
	double m = cabs( a[p*NC+q] ) ; if( m < 1e-300 ) continue ;
	cplx ph = a[p*NC+q]/m ;
	double th = 0.5*atan2( 2*m , creal( a[p*NC+p] ) - creal( a[q*NC+q] ) ) , c = cos( th ) , s = sin( th ) ;
	/* columns p,q: vp' = c vp + s conj(ph) vq ; vq' = -s ph vp + c vq */
	for( k = 0 ; k < NC ; k++ ) {
	  cplx x = a[k*NC+p] , y = a[k*NC+q] ;
	  a[k*NC+p] = c*x + s*conj( ph )*y ; a[k*NC+q] = -s*ph*x + c*y ;
	  x = v[k*NC+p] ; y = v[k*NC+q] ;
	  v[k*NC+p] = c*x + s*conj( ph )*y ; v[k*NC+q] = -s*ph*x + c*y ;
	}
	for( k = 0 ; k < NC ; k++ ) {
	  cplx x = a[p*NC+k] , y = a[q*NC+k] ;
	  a[p*NC+k] = c*x + s*ph*y ; a[q*NC+k] = -s*conj( ph )*x + c*y ;
	}
      }
  }
  for( p = 0 ; p < NC ; p++ ) ev[p] = creal( a[p*NC+p] ) ;
  return sw < 100 ;
}
/* log of a unitary matrix: diagonalise the commuting hermitian parts */
void m_log_unitary( cplx *h , const cplx *u )
{
  cplx d[ NN ] , A[ NN ] , v[ NN ] ; double ev[ NC ] ; int i , j , k , n ;
  m_dag( d , u ) ;
  /* generic real combination of (u+u^)/2 and (u-u^)/2i */
  for( i = 0 ; i < NN ; i++ ) A[i] = 0.5*( u[i]+d[i] ) + 0.7390851332*( u[i]-d[i] )/( 2*I ) ;
  m_eig_herm( ev , v , A ) ;
  m_zero( h ) ;
  for( n = 0 ; n < NC ; n++ ) {
    cplx e = 0 ; for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) e += conj( v[i*NC+n] )*u[i*NC+j]*v[j*NC+n] ;
    double ph = carg( e ) ;
    for( i = 0 ; i < NC ; i++ ) for( k = 0 ; k < NC ; k++ ) h[i*NC+k] += ph*v[i*NC+n]*conj( v[k*NC+n] ) ;
  }
}
/* ------------------------------------------------------------------ fixtures */
uint32_t fx_rand( uint64_t *s ) { *s = *s * 6364136223846793005ULL + 1442695040888963407ULL ; return (uint32_t)( *s >> 33 ) ; }
double fx_uni( uint64_t *s ) { return ( fx_rand( s ) + 0.5 )/2147483648.0 ; }
double fx_gauss( uint64_t *s ) { double a = fx_uni( s ) , b = fx_uni( s ) ; return sqrt( -2*log( a ) )*cos( 6.283185307179586*b ) ; }
void fx_su( cplx *u , uint64_t *s ) { int i ; for( i = 0 ; i < NN ; i++ ) u[i] = fx_gauss( s ) + I*fx_gauss( s ) ; m_reunit( u ) ; }
void fx_su_near( cplx *u , uint64_t *s , double eps )
{
  cplx h[ NN ] ; int i , j ;
  for( i = 0 ; i < NC ; i++ ) { h[i*NC+i] = eps*fx_gauss( s ) ; for( j = i+1 ; j < NC ; j++ ) { h[i*NC+j] = eps*( fx_gauss( s ) + I*fx_gauss( s ) ) ; h[j*NC+i] = conj( h[i*NC+j] ) ; } }
  cplx t = m_tr( h )/NC ; for( i = 0 ; i < NC ; i++ ) h[i*NC+i] -= t ;
  m_expi( u , h ) ; m_reunit( u ) ;
}
const char *fx_kindname[] = { "cold" , "center" , "diag" , "weak" , "hot" , "med" } ;
static void fill1( cplx *u , int kind , uint64_t *s )
{
  int i ;
  switch( kind ) {
  case F_CENTER : { int z = ( fx_rand( s ) >> 7 ) % NC ; m_id( u ) ; m_scale( u , cexp( I*6.283185307179586*z/NC ) ) ; break ; }
  case F_DIAG : { double t = 0 ; m_zero( u ) ; for( i = 0 ; i < NC-1 ; i++ ) { double p = 6.283185307179586*fx_uni( s ) ; t += p ; u[i*NC+i] = cexp( I*p ) ; } u[NN-1] = cexp( -I*t ) ; break ; }
  case F_WEAK : fx_su_near( u , s , 0.08 ) ; break ;
  case F_MED : fx_su_near( u , s , 0.35 ) ; break ;
  case F_HOT : fx_su( u , s ) ; break ;
  default : m_id( u ) ;
  }
}
cplx *fx_field( int kind , uint64_t seed )
{
  cplx *U = malloc( fxV*ND*NN*sizeof( cplx ) ) ; size_t k ; uint64_t s = seed*7919 + 12345 ;
  for( k = 0 ; k < 8 ; k++ ) fx_rand( &s ) ;
  for( k = 0 ; k < fxV*ND ; k++ ) fill1( U + k*NN , kind , &s ) ;
  return U ;
}
cplx *fx_gfield( int kind , uint64_t seed )
{
  cplx *U = malloc( fxV*NN*sizeof( cplx ) ) ; size_t k ; uint64_t s = seed*104729 + 54321 ;
  for( k = 0 ; k < 8 ; k++ ) fx_rand( &s ) ;
  for( k = 0 ; k < fxV ; k++ ) fill1( U + k*NN , kind , &s ) ;
  return U ;
}
cplx *fx_get( const struct site *lat )
{
  cplx *U = malloc( fxV*ND*NN*sizeof( cplx ) ) ; size_t i ; int mu , j ;
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) for( j = 0 ; j < NN ; j++ ) L(U,i,mu)[j] = lat[i].O[mu][j] ;
  return U ;
}
void fx_put( struct site *lat , const cplx *U )
{
  size_t i ; int mu , j ;
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) for( j = 0 ; j < NN ; j++ ) lat[i].O[mu][j] = L(U,i,mu)[j] ;
}
struct site *fx_lat( const cplx *U ) { struct site *l = allocate_lat() ; fx_put( l , U ) ; return l ; }
cplx *fx_dup( const cplx *U ) { cplx *r = malloc( fxV*ND*NN*sizeof( cplx ) ) ; memcpy( r , U , fxV*ND*NN*sizeof( cplx ) ) ; return r ; }
double fx_dist( const cplx *a , const cplx *b ) { double d = 0 ; size_t k ; for( k = 0 ; k < fxV*ND ; k++ ) { double e = m_dist( a+k*NN , b+k*NN ) ; if( e > d ) d = e ; } return d ; }
double fx_distlat( const struct site *lat , const cplx *U ) { cplx *a = fx_get( lat ) ; double d = fx_dist( a , U ) ; free( a ) ; return d ; }
double fx_unitarity( const struct site *lat )
{ cplx *a = fx_get( lat ) ; double d = 0 ; size_t k ; for( k = 0 ; k < fxV*ND ; k++ ) { double e = m_unit( a+k*NN ) ; if( e > d ) d = e ; } free( a ) ; return d ; }
uint64_t fx_hash( const cplx *U )
{
  uint64_t h = 1469598103934665603ULL ; size_t k ; const double *d = (const double*)U ;
  for( k = 0 ; k < fxV*ND*NN*2 ; k++ ) { int64_t v = (int64_t)llrint( d[k]*1e8 ) ; int b ; for( b = 0 ; b < 8 ; b++ ) { h ^= ( v >> ( 8*b ) ) & 255 ; h *= 1099511628211ULL ; } }
  return h ;
}
/* ------------------------------------------------------------------ observables */
void r_plaqm( cplx *r , const cplx *U , size_t i , int mu , int nu )
{ m_mul( r , L(U,i,mu) , L(U,fx_up(i,mu),nu) ) ; m_mulad( r , r , L(U,fx_up(i,nu),mu) ) ; m_mulad( r , r , L(U,i,nu) ) ; }
void r_staple( cplx *r , const cplx *U , size_t i , int mu , int nu )
{
  cplx a[ NN ] , b[ NN ] ; size_t d = fx_dn( i , nu ) ;
  m_mul( a , L(U,i,nu) , L(U,fx_up(i,nu),mu) ) ; m_mulad( a , a , L(U,fx_up(i,mu),nu) ) ;
  m_muldb( b , L(U,d,nu) , L(U,d,mu) ) ; m_mul( b , b , L(U,fx_up(d,mu),nu) ) ;
  m_cp( r , a ) ; m_add( r , b ) ;
}
cplx *r_gtrans( const cplx *U , const cplx *g )
{
  cplx *r = malloc( fxV*ND*NN*sizeof( cplx ) ) ; size_t i ; int mu ;
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) { m_mul( L(r,i,mu) , g+i*NN , L(U,i,mu) ) ; m_mulad( L(r,i,mu) , L(r,i,mu) , g+fx_up(i,mu)*NN ) ; }
  return r ;
}
void r_clover( cplx *F , const cplx *U , size_t i , int mu , int nu )
{
  cplx t[ NN ] ; size_t a = fx_dn(i,mu) , b = fx_dn(i,nu) , c = fx_dn(a,nu) ;
  r_plaqm( F , U , i , mu , nu ) ;
  /* nu then -mu */
  m_mulad( t , L(U,i,nu) , L(U,fx_up(a,nu),mu) ) ; m_mulad( t , t , L(U,a,nu) ) ; m_mul( t , t , L(U,a,mu) ) ; m_add( F , t ) ;
  /* -mu then -nu */
  cplx d[ NN ] ; m_dag( d , L(U,a,mu) ) ; m_mulad( t , d , L(U,c,nu) ) ; m_mul( t , t , L(U,c,mu) ) ; m_mul( t , t , L(U,b,nu) ) ; m_add( F , t ) ;
  /* -nu then mu */
  m_dag( d , L(U,b,nu) ) ; m_mul( t , d , L(U,b,mu) ) ; m_mul( t , t , L(U,fx_up(b,mu),nu) ) ; m_mulad( t , t , L(U,i,mu) ) ; m_add( F , t ) ;
}
int fx_close( double a , double b , double tol )
{
  if( isnan( a ) || isnan( b ) ) return 0 ;
  double m = fabs( a ) > fabs( b ) ? fabs( a ) : fabs( b ) ;
  return fabs( a-b ) <= tol*( m > 1 ? m : 1 ) ;
}

void r_GGQ( double *GG , double *Q , double *qx , const cplx *U )
{
  size_t i ; *GG = *Q = 0 ;
  for( i = 0 ; i < fxV ; i++ ) {
    double q = 0 ;
#if ND == 4
    int k ;
    for( k = 0 ; k < 3 ; k++ ) {
      cplx A[ NN ] , B[ NN ] ;
      r_clover( A , U , i , 3 , k ) ; m_herm_proj( A , A ) ;
      r_clover( B , U , i , ( k+1 )%3 , ( k+2 )%3 ) ; m_herm_proj( B , B ) ;
      *GG += creal( m_trab( A , A ) ) + creal( m_trab( B , B ) ) ; q += creal( m_trab( A , B ) ) ;
    }
#endif
    if( qx ) qx[i] = q ;
    *Q += q ;
  }
}
void r_plaqs( double *all , double *sp , double *t , const cplx *U )
{
  size_t i ; int mu , nu ; double s = 0 , x = 0 ;
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) for( nu = 0 ; nu < mu ; nu++ ) {
    cplx P[ NN ] ; r_plaqm( P , U , i , mu , nu ) ;
    if( mu == ND-1 ) x += creal( m_tr( P ) ) ; else s += creal( m_tr( P ) ) ;
  }
  if( all ) *all = 2*( s + x )/( (double)NC*ND*( ND-1 )*fxV ) ;
  if( sp ) *sp = 2*s/( (double)NC*( ND-1 )*( ND-2 )*fxV ) ;
  if( t ) *t = x/( (double)NC*( ND-1 )*fxV ) ;
}
