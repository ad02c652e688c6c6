/* C19: the colour-matrix operations against their definitions, for every
   combination of arguments from catalogues of special and generic matrices. */
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#pragma GCC diagnostic ignored "-Wunused-function"
#include "fx.h"
#include "mc.h"
#include "mcomp.h"
#include "mcenv.h"
#include "MMUL.h"
#include "MMUL_dag.h"
#include "MMULdag.h"
#include "MMULdagdag.h"
#include "MMUL_SUNC.h"
#include "MMUL_dag_SUNC.h"
#include "MMULdag_SUNC.h"
#include "MMULdagdag_SUNC.h"
#include "U_Nops.h"
#include "trace_abc.h"
#include "invert.h"
#include "LU.h"
#include <stdarg.h>
#ifdef VERIF_NO_SSE
#define HAVE_NEWTON 1
#define NEWTON( a , b ) newton_approx_inverse( a , b )
#else
#define HAVE_NEWTON 0
#define NEWTON( a , b )
#endif
#include "exactQ.h"
#include "expMat.h"
#include "taylor_logs.h"
#include "givens.h"
#include "gramschmidt.h"
#include "lie_mats.h"
#include "evalues.h"
#include "GLUlib_wrap.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#define AL __attribute__((aligned(32)))
#define MAXM 400
typedef struct { AL cplx m[ NN + NN%2 ] ; char n[ 56 ] ; } mat ;
static mat *G , *S , *H ; static int nG , nS , nH ;
static const char *opname ; static const mat *arg[3] ; static mat keep[3] ; static int narg ;
static AL cplx out[ 2*NN + 2 ] ;
static long ncalls ;
static void put( mat *l , int *n , const cplx *m , const char *fmt , ... )
{ if( *n >= MAXM ) return ; memset( &l[*n] , 0 , sizeof( mat ) ) ; memcpy( l[*n].m , m , NN*sizeof( cplx ) ) ; va_list a ; va_start( a , fmt ) ; vsnprintf( l[*n].n , sizeof( l->n ) , fmt , a ) ; va_end( a ) ; ( *n )++ ; }
static double norm( const cplx *a ) { double r = 0 ; int i ; for( i = 0 ; i < NN ; i++ ) r = fmax( r , cabs( a[i] ) ) ; return r ; }
static void expherm( cplx *u , const double *ph ) { int i ; m_zero( u ) ; for( i = 0 ; i < NC ; i++ ) u[ i*(NC+1) ] = cexp( I*ph[i] ) ; }
static void catalogues( void )
{
  G = calloc( MAXM , sizeof( mat ) ) ; S = calloc( MAXM , sizeof( mat ) ) ; H = calloc( MAXM , sizeof( mat ) ) ;
  uint64_t s = 77 ; cplx m[ NN ] , r[ NN ] , t[ NN ] ; double ph[ NC ] ; int i , j , k ; const int T = mc_thorough( ) ;
  /* special unitary: centre, diagonal with every pattern of coinciding phases, permutations, embedded SU(2), near those, generic; each also turned by a generic rotation */
  for( k = 0 ; k < NC ; k++ ) { for( i = 0 ; i < NC ; i++ ) ph[i] = 2*M_PI*k/NC ; expherm( m , ph ) ; put( S , &nS , m , "centre %d" , k ) ; }
  const double an[] = { 1e-9 , 1e-7 , 1e-5 , 1e-3 , 0.01 , 0.3 , 1.0 , 1.9 , 2.6 , 3.0 } ;
  for( k = 0 ; k < 10 ; k++ ) { const double a = an[k] ;
    for( i = 0 ; i < NC ; i++ ) ph[i] = i ? -a/( NC-1 ) : a ; expherm( m , ph ) ; put( S , &nS , m , "degenerate diagonal %g" , a ) ; fx_su( r , &s ) ; m_mul( t , r , m ) ; m_mulad( t , t , r ) ; put( S , &nS , t , "turned degenerate %g" , a ) ;
    for( i = 0 ; i < NC ; i++ ) ph[i] = i == 0 ? a : i == 1 ? -a : 0 ; expherm( m , ph ) ; put( S , &nS , m , "SU(2) diagonal %g" , a ) ; fx_su( r , &s ) ; m_mul( t , r , m ) ; m_mulad( t , t , r ) ; put( S , &nS , t , "turned SU(2) %g" , a ) ;
    double sum = 0 ; for( i = 0 ; i < NC ; i++ ) sum += ph[i] = a*( i + 1 )*( i + 1 )/( NC*NC ) ; for( i = 0 ; i < NC ; i++ ) ph[i] -= sum/NC ; expherm( m , ph ) ; put( S , &nS , m , "diagonal %g" , a ) ; fx_su( r , &s ) ; m_mul( t , r , m ) ; m_mulad( t , t , r ) ; put( S , &nS , t , "turned %g" , a ) ; }
  for( k = 0 ; k < NC-1 ; k++ ) { m_id( m ) ; m[ k*(NC+1) ] = m[ (k+1)*(NC+1) ] = 0 ; m[ k*NC+k+1 ] = 1 ; m[ (k+1)*NC+k ] = -1 ; put( S , &nS , m , "exchange %d" , k ) ; m[ k*NC+k+1 ] = m[ (k+1)*NC+k ] = I ; put( S , &nS , m , "i exchange %d" , k ) ; }
  for( k = 0 ; k < 6 ; k++ ) { fx_su_near( m , &s , pow( 10 , -2*k ) ) ; put( S , &nS , m , "within %g of one" , pow( 10 , -2*k ) ) ; }
  for( k = 0 ; k < ( T ? 80 : 24 ) ; k++ ) { fx_su( m , &s ) ; put( S , &nS , m , "generic unitary %d" , k ) ; }
  /* general */
  m_zero( m ) ; put( G , &nG , m , "zero" ) ; for( i = 0 ; i < NN ; i++ ) { m_zero( m ) ; m[i] = 1 ; put( G , &nG , m , "unit element %d" , i ) ; m[i] = I ; put( G , &nG , m , "unit element %di" , i ) ; }
  for( k = 0 ; k < ( T ? 40 : 12 ) ; k++ ) { for( i = 0 ; i < NN ; i++ ) m[i] = fx_gauss( &s ) + I*fx_gauss( &s ) ; put( G , &nG , m , "generic %d" , k ) ; }
  for( k = 0 ; k < NC ; k++ ) { for( i = 0 ; i < NN ; i++ ) m[i] = i/NC == k || i%NC == k ? fx_gauss( &s ) + I*fx_gauss( &s ) : 0 ; for( i = 0 ; i < NC ; i++ ) if( i != k ) m[ i*(NC+1) ] = 1e-3*i + 0.1 ; put( G , &nG , m , "arrow %d" , k ) ; }
  for( k = 0 ; k < 6 ; k++ ) { for( i = 0 ; i < NN ; i++ ) m[i] = fx_gauss( &s ) + I*fx_gauss( &s ) ; for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) if( k == 0 ? i < j : k == 1 ? i > j : k == 2 ? i == j : k == 3 ? i + j == NC-1 : k == 4 ? !i && !j : i + j > NC-1 ) m[ i*NC+j ] = 0 ; put( G , &nG , m , "holes %d" , k ) ; }
  for( k = 0 ; k < 4 ; k++ ) { const double sc[] = { 1e-9 , 1e-4 , 1e4 , 1e9 } ; for( i = 0 ; i < NN ; i++ ) m[i] = sc[k]*( fx_gauss( &s ) + I*fx_gauss( &s ) ) ; put( G , &nG , m , "scaled %g" , sc[k] ) ; }
  for( k = 0 ; k < 3 ; k++ ) { fx_su( m , &s ) ; for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) if( k == 0 ) m[ i*NC+j ] = m[j] ; else if( k == 1 && i == NC-1 ) m[ i*NC+j ] = m[j] + m[ ( NC > 2 ? NC : 0 )+j ] ; else if( k == 2 && j == 0 ) m[ i*NC+j ] = 2*m[ i*NC+1 ] ; put( G , &nG , m , "singular %d" , k ) ; }
  for( k = 0 ; k < nS && k < 60 ; k += 3 ) { for( i = 0 ; i < NN ; i++ ) m[i] = S[k].m[i]*1.7 + 0.11*( fx_gauss( &s ) + I*fx_gauss( &s ) ) ; put( G , &nG , m , "near %s" , S[k].n ) ; }
  for( k = 0 ; k < nS ; k += 2 ) put( G , &nG , S[k].m , "%s" , S[k].n ) ;
  /* hermitian traceless */
  m_zero( m ) ; put( H , &nH , m , "zero" ) ; const double sc[] = { 1e-30 , 1e-12 , 1e-8 , 1e-5 , 1e-4 , 1e-3 , 2e-3 , 0.005 , 0.02 , 0.1 , 0.5 , 1 , 2 , 3.1 , 6 } ;
  for( k = 0 ; k < 15 ; k++ ) for( j = 0 ; j < 8 ; j++ ) { double sum = 0 ; for( i = 0 ; i < NC ; i++ ) sum += ph[i] = j%4 == 0 ? ( i == 0 ) : j%4 == 1 ? ( i == 0 ) - ( i == 1 ) : j%4 == 2 ? ( i == NC-1 ? -1 : 0 ) : sin( 1.3*i*i + k ) ; m_zero( m ) ; for( i = 0 ; i < NC ; i++ ) m[ i*(NC+1) ] = sc[k]*( ph[i] - sum/NC ) ; if( j > 3 ) { fx_su( r , &s ) ; m_mul( t , r , m ) ; m_mulad( m , t , r ) ; for( i = 0 ; i < NC ; i++ ) { m[ i*(NC+1) ] = creal( m[ i*(NC+1) ] ) ; int q ; for( q = 0 ; q < i ; q++ ) m[ i*NC+q ] = conj( m[ q*NC+i ] ) ; } cplx tr = m_tr( m )/NC ; for( i = 0 ; i < NC ; i++ ) m[ i*(NC+1) ] -= tr ; }
      put( H , &nH , m , "%spattern %d x %g" , j > 3 ? "turned " : "" , j%4 , sc[k] ) ; }
}
/* run an operation: arguments are compared afterwards, the output starts as garbage */
static void before( const char *op , int n , const mat *a , const mat *b , const mat *c , int fill )
{ int i ; opname = op ; narg = n ; arg[0] = a ; arg[1] = b ; arg[2] = c ; for( i = 0 ; i < n ; i++ ) memcpy( &keep[i] , arg[i] , sizeof( mat ) ) ; for( i = 0 ; i < 2*NN+2 ; i++ ) out[i] = fill == 0 ? NAN + I*NAN : 3e30 - 7e30*I ; ncalls++ ; mc_progress( "%s( %s %s %s )" , op , a ? a->n : "" , b ? b->n : "" , c ? c->n : "" ) ; }
static int dead ;
static void bad( const char *what , double d )
{ if( dead++ > 6 ) return ; mc_fail( opname , "%s( %s%s%s%s%s ): %s (%g)" , opname , arg[0] ? arg[0]->n : "" , narg > 1 ? ", " : "" , narg > 1 ? arg[1]->n : "" , narg > 2 ? ", " : "" , narg > 2 ? arg[2]->n : "" , what , d ) ; }
static void kept( void ) { int i ; for( i = 0 ; i < narg ; i++ ) if( memcmp( keep[i].m , arg[i]->m , NN*sizeof( cplx ) ) ) bad( "modifies an operand it only reads" , i ) ; }
static void after( const cplx *want , double sc , double tol )
{ double d = 0 ; int i ; for( i = 0 ; i < NN ; i++ ) { const double e = cabs( out[i] - want[i] ) ; if( !( e <= d ) ) d = e ; if( e != e ) d = INFINITY ; } if( !( d <= tol*fmax( sc , 1e-300 ) ) ) bad( "differs from its definition" , d/sc ) ; for( i = NN ; i < 2*NN+2 ; i++ ) if( !( out[i] != out[i] ) && out[i] != 3e30 - 7e30*I ) { bad( "writes beyond the matrix" , i ) ; break ; } kept( ) ; mc_trans( 1 ) ; }
static void afterz( cplx v , cplx want , double sc , double tol ) { const double e = cabs( v - want ) ; if( !( e <= tol*fmax( sc , 1e-300 ) ) ) bad( "differs from its definition" , e/sc ) ; kept( ) ; mc_trans( 1 ) ; }
static const double E1 = 1e-13 ;
static void load( const cplx *a ) { memcpy( out , a , NN*sizeof( cplx ) ) ; }
static void pairs( const mat *A , int na , const mat *B , int nb , int su , int part , int parts )
{
  int a , b , f ; cplx w[ NN ] , da[ NN ] , db[ NN ] , z ; double re ;
  for( a = part ; a < na ; a += parts ) for( b = 0 ; b < nb ; b++ ) {
    const mat *x = A + a , *y = B + b ; f = ( a + b )&1 ; const double sc = norm( x->m )*norm( y->m )*NC ; m_dag( da , x->m ) ; m_dag( db , y->m ) ;
#define DO( fn , want ) { before( #fn , 2 , x , y , NULL , f ) ; fn( out , x->m , y->m ) ; want ; after( w , sc , E1 ) ; }
    if( su ) {
      DO( multab_suNC , m_mul( w , x->m , y->m ) ) DO( multab_dag_suNC , m_mul( w , x->m , db ) ) DO( multabdag_suNC , m_mul( w , da , y->m ) ) DO( multab_dagdag_suNC , m_mul( w , da , db ) )
      continue ; }
    DO( multab , m_mul( w , x->m , y->m ) ) DO( multab_dag , m_mul( w , x->m , db ) ) DO( multabdag , m_mul( w , da , y->m ) ) DO( multab_dagdag , m_mul( w , da , db ) )
    DO( b_min_c , ( m_cp( w , x->m ) , m_axpy( w , -1 , y->m ) ) )
    before( "multab_atomic_left" , 1 , y , NULL , NULL , f ) ; load( x->m ) ; multab_atomic_left( out , y->m ) ; m_mul( w , y->m , x->m ) ; cplx w2[ NN ] ; m_mul( w2 , x->m , y->m ) ; { /* one of the two is the left, the other the right product */
      double d = 0 ; int i ; for( i = 0 ; i < NN ; i++ ) d = fmax( d , cabs( out[i] - w[i] ) ) ; after( w , sc , E1 ) ; (void)d ; }
    before( "multab_atomic_right" , 1 , y , NULL , NULL , f ) ; load( x->m ) ; multab_atomic_right( out , y->m ) ; after( w2 , sc , E1 ) ;
    before( "a_plus_b" , 1 , y , NULL , NULL , f ) ; load( x->m ) ; a_plus_b( out , y->m ) ; m_cp( w , x->m ) ; m_add( w , y->m ) ; after( w , norm( x->m ) + norm( y->m ) , E1 ) ;
    before( "a_plus_Sxb" , 1 , y , NULL , NULL , f ) ; load( x->m ) ; a_plus_Sxb( out , y->m , -1.3 ) ; m_cp( w , x->m ) ; m_axpy( w , -1.3 , y->m ) ; after( w , norm( x->m ) + 2*norm( y->m ) , E1 ) ;
    before( "a_plus_CSxb" , 1 , y , NULL , NULL , f ) ; load( x->m ) ; a_plus_CSxb( out , y->m , 0.4 - 1.1*I ) ; m_cp( w , x->m ) ; m_axpy( w , 0.4 - 1.1*I , y->m ) ; after( w , norm( x->m ) + 2*norm( y->m ) , E1 ) ;
    const double st = sc*NC ;
    before( "trace_ab" , 2 , x , y , NULL , f ) ; z = NAN ; trace_ab( &z , x->m , y->m ) ; afterz( z , m_trab( x->m , y->m ) , st , E1 ) ;
    before( "trace_ab_dag" , 2 , x , y , NULL , f ) ; z = NAN ; trace_ab_dag( &z , x->m , y->m ) ; afterz( z , m_trab( x->m , db ) , st , E1 ) ;
    before( "trace_ab_dag_Re" , 2 , x , y , NULL , f ) ; re = NAN ; trace_ab_dag_Re( &re , x->m , y->m ) ; afterz( re , creal( m_trab( x->m , db ) ) , st , E1 ) ;
    if( a < NN + 4 && b < NN + 4 ) { /* vectors: the first rows */ int i , j ;
      before( "outerproduct" , 2 , x , y , NULL , f ) ; outerproduct( out , x->m , y->m ) ; for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) w[ i*NC+j ] = x->m[i]*conj( y->m[j] ) ; after( w , sc , E1 ) ; }
    { int i , j ; cplx v[ NC ] ; before( "mat_mult_vec" , 2 , x , y , NULL , f ) ; for( i = 0 ; i < NC ; i++ ) v[i] = NAN ; mat_mult_vec( v , x->m , y->m ) ; for( i = 0 ; i < NC ; i++ ) { z = 0 ; for( j = 0 ; j < NC ; j++ ) z += x->m[ i*NC+j ]*y->m[j] ; afterz( v[i] , z , sc , E1 ) ; } }
    if( dead > 6 ) return ;
  }
}
static void herms( void )
{
  int a , b ; double re ; cplx w[ NN ] , p[ HERMSIZE ] , q[ HERMSIZE ] , o[ HERMSIZE ] ; int i ;
  for( a = 0 ; a < nH ; a++ ) for( b = 0 ; b < nH ; b++ ) { const mat *x = H + a , *y = H + b ; const double st = NN*norm( x->m )*norm( y->m ) + 1e-300 ;
    before( "trace_ab_herm" , 2 , x , y , NULL , 0 ) ; re = NAN ; trace_ab_herm( &re , x->m , y->m ) ; afterz( re , m_trab( x->m , y->m ) , st , 1e-12 ) ;
    pack_hermitian( p , x->m ) ; pack_hermitian( q , y->m ) ;
    before( "trace_ab_herm_short" , 2 , x , y , NULL , 0 ) ; re = NAN ; trace_ab_herm_short( &re , p , q ) ; afterz( re , m_trab( x->m , y->m ) , st , 1e-12 ) ;
    before( "a_plus_Sxbminc_short" , 2 , x , y , NULL , 0 ) ; for( i = 0 ; i < HERMSIZE ; i++ ) o[i] = i - 2.*I ; a_plus_Sxbminc_short( o , 1.7 , p , q ) ; for( i = 0 ; i < HERMSIZE ; i++ ) afterz( o[i] , i - 2.*I + 1.7*( p[i] - q[i] ) , 10 + 4*( norm( x->m ) + norm( y->m ) ) , E1 ) ;
    if( dead > 6 ) return ; }
  for( a = 0 ; a < nH ; a++ ) { const mat *x = H + a ; cplx v[ NN ] ;
    before( "trace_prod_herm" , 1 , x , NULL , NULL , 0 ) ; re = NAN ; trace_prod_herm( &re , x->m ) ; afterz( re , m_trab( x->m , x->m ) , NN*norm( x->m )*norm( x->m ) + 1e-300 , 1e-12 ) ;
    before( "rebuild_hermitian" , 1 , x , NULL , NULL , a&1 ) ; pack_hermitian( p , x->m ) ; rebuild_hermitian( out , p ) ; after( x->m , norm( x->m ) + 1e-300 , 1e-12 ) ;
    before( "rebuild_antihermitian" , 1 , x , NULL , NULL , a&1 ) ; for( i = 0 ; i < NN ; i++ ) v[i] = I*x->m[i] ; pack_hermitian( p , v ) ; rebuild_antihermitian( out , p ) ; after( v , norm( x->m ) + 1e-300 , 1e-12 ) ;
    m_expi( w , x->m ) ; const double te = norm( x->m ) > 1 ? 1e-11 : 1e-12 ;
    before( "exponentiate" , 1 , x , NULL , NULL , a&1 ) ; exponentiate( out , x->m ) ; after( w , 1 , te ) ;
    before( "exponentiate_short" , 1 , x , NULL , NULL , a&1 ) ; pack_hermitian( p , x->m ) ; exponentiate_short( out , p ) ; after( w , 1 , te ) ;
    /* eigenvalues */
#if NC == 2 || NC == 3
    if( norm( x->m ) > 1e-5 ) { double z[ NC ] , ev[ NC ] ; int j , used[ NC ] ; memset( used , 0 , sizeof( used ) ) ; before( "Eigenvalues_hermitian" , 1 , x , NULL , NULL , 0 ) ; for( i = 0 ; i < NC ; i++ ) z[i] = NAN ; Eigenvalues_hermitian( z , x->m ) ; cplx vec[ NN ] ; m_eig_herm( ev , vec , x->m ) ; for( i = 0 ; i < NC ; i++ ) { for( j = 0 ; j < NC ; j++ ) if( !used[j] && fabs( ev[j] - z[i] ) < 3e-7*norm( x->m ) ) { used[j] = 1 ; break ; } if( j == NC ) { bad( "is not an eigenvalue" , z[i] ) ; break ; } } kept( ) ; mc_trans( 1 ) ; }
#endif
    if( dead > 6 ) return ; }
}
static void triples( int part , int parts )
{
  int a , b , c ; cplx w[ NN ] , dc[ NN ] , z ; double re ; const int lim = mc_thorough( ) ? 70 : 34 ; mat *T = calloc( lim , sizeof( mat ) ) ; int n = 0 , i ;
  for( i = 0 ; i < nG && n < lim ; i += 1 + nG/lim ) T[ n++ ] = G[i] ;
  for( a = part ; a < n ; a += parts ) for( b = 0 ; b < n ; b++ ) { m_mul( w , T[a].m , T[b].m ) ; for( c = 0 ; c < n ; c++ ) { const mat *x = T + a , *y = T + b , *u = T + c ; const double st = NN*NC*norm( x->m )*norm( y->m )*norm( u->m ) ; m_dag( dc , u->m ) ; const cplx t = m_trab( w , u->m ) , td = m_trab( w , dc ) ;
    before( "trace_abc" , 3 , x , y , u , 0 ) ; z = NAN ; trace_abc( &z , x->m , y->m , u->m ) ; afterz( z , t , st , E1 ) ;
    before( "trace_abc_dag" , 3 , x , y , u , 0 ) ; z = NAN ; trace_abc_dag( &z , x->m , y->m , u->m ) ; afterz( z , td , st , E1 ) ;
    before( "trace_abc_dag_Re" , 3 , x , y , u , 0 ) ; re = NAN ; trace_abc_dag_Re( &re , x->m , y->m , u->m ) ; afterz( re , creal( td ) , st , E1 ) ;
    if( dead > 6 ) return ; } }
  for( a = part ; a < nS ; a += parts*( mc_thorough( ) ? 1 : 2 ) ) for( b = 0 ; b < nS ; b += 2 ) for( c = 0 ; c < nS ; c += 2 ) { const mat *x = S + a , *y = S + b , *u = S + c ; m_mul( w , x->m , y->m ) ; m_dag( dc , u->m ) ; before( "Re_trace_abc_dag_suNC" , 3 , x , y , u , 0 ) ; re = Re_trace_abc_dag_suNC( x->m , y->m , u->m ) ; afterz( re , creal( m_trab( w , dc ) ) , NC*NC , E1 ) ; if( dead > 6 ) return ; }
}
/* ratio of the largest and smallest singular value */
static double cond( const cplx *a ) { cplx h[ NN ] , v[ NN ] ; double ev[ NC ] , lo = INFINITY , hi = 0 ; int i ; m_muldb( h , a , a ) ; m_eig_herm( ev , v , h ) ; for( i = 0 ; i < NC ; i++ ) { lo = fmin( lo , ev[i] ) ; hi = fmax( hi , ev[i] ) ; } return lo <= 0 ? INFINITY : sqrt( hi/lo ) ; }
static void unary( void )
{
  int a , i , n ; cplx w[ NN ] , z ; double re ; AL cplx t[ NN ] ;
  for( a = 0 ; a < nG ; a++ ) { const mat *x = G + a ; const double sc = norm( x->m ) , dsc = pow( sc , NC )*NN + 1e-300 ; const cplx d = m_det( x->m ) ;
    before( "trace" , 1 , x , NULL , NULL , 0 ) ; afterz( trace( x->m ) , m_tr( x->m ) , NC*sc , E1 ) ; before( "speed_trace" , 1 , x , NULL , NULL , 0 ) ; z = NAN ; speed_trace( &z , x->m ) ; afterz( z , m_tr( x->m ) , NC*sc , E1 ) ; before( "speed_trace_Re" , 1 , x , NULL , NULL , 0 ) ; re = NAN ; speed_trace_Re( &re , x->m ) ; afterz( re , creal( m_tr( x->m ) ) , NC*sc , E1 ) ;
    before( "det" , 1 , x , NULL , NULL , 0 ) ; afterz( det( x->m ) , d , dsc , 1e-12 ) ; before( "speed_det" , 1 , x , NULL , NULL , 0 ) ; z = NAN ; speed_det( &z , x->m ) ; afterz( z , d , dsc , 1e-12 ) ;
#if NC > 3
    before( "LU_det" , 1 , x , NULL , NULL , 0 ) ; afterz( LU_det( NC , x->m ) , d , dsc , 1e-12 ) ; before( "LU_det_overwrite" , 1 , x , NULL , NULL , 0 ) ; memcpy( t , x->m , sizeof( t ) ) ; afterz( LU_det_overwrite( NC , t ) , d , dsc , 1e-12 ) ;
#endif
    before( "dagger" , 1 , x , NULL , NULL , a&1 ) ; dagger( out , x->m ) ; m_dag( w , x->m ) ; after( w , sc , E1 ) ;
    before( "transpose" , 1 , x , NULL , NULL , a&1 ) ; transpose( out , x->m ) ; for( i = 0 ; i < NN ; i++ ) w[ i%NC*NC + i/NC ] = x->m[i] ; after( w , sc , E1 ) ;
    before( "equiv" , 1 , x , NULL , NULL , a&1 ) ; equiv( out , x->m ) ; after( x->m , sc , 0 ) ;
    before( "M_times_c" , 0 , x , NULL , NULL , a&1 ) ; load( x->m ) ; M_times_c( out , 0.7 - 2*I ) ; m_cp( w , x->m ) ; m_scale( w , 0.7 - 2*I ) ; after( w , 3*sc , E1 ) ;
    before( "add_constant" , 0 , x , NULL , NULL , a&1 ) ; load( x->m ) ; add_constant( out , 0.7 - 2*I ) ; m_cp( w , x->m ) ; for( i = 0 ; i < NC ; i++ ) w[ i*(NC+1) ] += 0.7 - 2*I ; after( w , 3 + sc , E1 ) ;
    before( "diag_vect" , 1 , x , NULL , NULL , a&1 ) ; diag_vect( out , x->m ) ; m_zero( w ) ; for( i = 0 ; i < NC ; i++ ) w[ i*(NC+1) ] = x->m[i] ; after( w , sc , E1 ) ;
    before( "diag" , 0 , x , NULL , NULL , a&1 ) ; diag( out , x->m[1] ) ; m_zero( w ) ; for( i = 0 ; i < NC ; i++ ) w[ i*(NC+1) ] = x->m[1] ; after( w , sc , E1 ) ;
    before( "identity" , 0 , x , NULL , NULL , a&1 ) ; identity( out ) ; m_id( w ) ; after( w , 1 , 0 ) ; before( "zero_mat" , 0 , x , NULL , NULL , a&1 ) ; zero_mat( out ) ; m_zero( w ) ; after( w , 1 , 0 ) ;
    if( sc < 100 && sc > 1e-3 ) { m_id( w ) ; double ns = 1 ; for( n = 0 ; n <= 33 ; n++ ) { before( "matrix_power" , 1 , x , NULL , NULL , n&1 ) ; matrix_power( out , x->m , n ) ; after( w , ns , 1e-12 ) ; m_mul( w , w , x->m ) ; ns *= fmax( 1e-3 , sc*NC ) ; } }
    /* adjugate: a M = det M */
    before( "cofactor_transpose" , 1 , x , NULL , NULL , a&1 ) ; z = cofactor_transpose( out , x->m ) ; for( i = 0 ; i < NN ; i++ ) { /* minor without row c and column r */ cplx mi[ NN ] ; int r = i/NC , c = i%NC , p , q ; m_zero( mi ) ; for( p = 0 ; p < NC ; p++ ) for( q = 0 ; q < NC ; q++ ) mi[ p*NC+q ] = p == c ? ( q == r ) : q == r ? 0 : x->m[ p*NC+q ] ; w[i] = m_det( mi ) ; } after( w , pow( sc , NC-1 )*NN + 1e-300 , 1e-12 ) ; afterz( z , d , dsc , 1e-12 ) ;
    const double k = cond( x->m ) ;
    if( k < 1e7 ) { before( "inverse" , 1 , x , NULL , NULL , a&1 ) ; const int st = inverse( out , x->m ) ; if( st != GLU_SUCCESS ) bad( "an invertible matrix is refused" , st ) ; cplx o[ NN ] ; memcpy( o , out , sizeof( o ) ) ; m_mul( t , o , x->m ) ; m_id( w ) ; memcpy( out , t , sizeof( t ) ) ; after( w , fmax( 1 , k*k ) , 1e-12 ) ;
      if( k < 1e3 && st == GLU_SUCCESS && HAVE_NEWTON ) { /* started from a slightly wrong inverse */ before( "newton_approx_inverse" , 1 , x , NULL , NULL , 0 ) ; memcpy( out , o , sizeof( o ) ) ; for( i = 0 ; i < NN ; i++ ) out[i] *= 1 + 1e-3/k*cos( i ) ; NEWTON( out , x->m ) ; m_mul( t , out , x->m ) ; memcpy( out , t , sizeof( t ) ) ; after( w , k , 1e-9 ) ; } }
    else if( strncmp( x->n , "zero" , 4 ) == 0 || strncmp( x->n , "unit" , 4 ) == 0 ) { before( "inverse" , 1 , x , NULL , NULL , a&1 ) ; size_t len ; mc_capture( ) ; const int st = inverse( out , x->m ) ; free( mc_captured( &len ) ) ; if( st == GLU_SUCCESS ) bad( "a singular matrix is inverted" , st ) ; kept( ) ; }
    if( dead > 6 ) return ; }
}
static double re_tr_max( const cplx *U , const cplx *w ) { cplx t[ NN ] ; m_mulad( t , U , w ) ; return creal( m_tr( t ) ) ; }
static void reunit( void )
{
  int a , i , j , k ; AL cplx t[ NN ] , u[ NN ] ; cplx w[ NN ] ;
  for( a = 0 ; a < nG ; a++ ) { const mat *x = G + a ; const double c = cond( x->m ) ; if( !( c < 1e5 ) ) continue ;
    before( "gram_reunit" , 0 , x , NULL , NULL , a&1 ) ; load( x->m ) ; gram_reunit( out ) ; memcpy( u , out , sizeof( u ) ) ; mc_trans( 1 ) ; if( !( m_unit( u ) < 1e-12*c ) ) bad( "not special unitary" , m_unit( u ) ) ;
    /* Gram-Schmidt of the columns, or of the rows, with the last vector fixed by the determinant */
    double best = INFINITY ; for( k = 0 ; k < 2 ; k++ ) { cplx v[ NC ][ NC ] ; int p , q ; for( p = 0 ; p < NC-1 ; p++ ) { for( i = 0 ; i < NC ; i++ ) v[p][i] = k ? x->m[ p*NC+i ] : x->m[ i*NC+p ] ; for( q = 0 ; q < p ; q++ ) { cplx ip = 0 ; for( i = 0 ; i < NC ; i++ ) ip += conj( v[q][i] )*v[p][i] ; for( i = 0 ; i < NC ; i++ ) v[p][i] -= ip*v[q][i] ; } double nn = 0 ; for( i = 0 ; i < NC ; i++ ) nn += creal( v[p][i]*conj( v[p][i] ) ) ; for( i = 0 ; i < NC ; i++ ) v[p][i] /= sqrt( nn ) ; }
      double d = 0 ; for( p = 0 ; p < NC-1 ; p++ ) for( i = 0 ; i < NC ; i++ ) d = fmax( d , cabs( v[p][i] - ( k ? u[ p*NC+i ] : u[ i*NC+p ] ) ) ) ; best = fmin( best , d ) ; }
    if( !( best < 1e-12*c*c ) ) bad( "is not the Gram-Schmidt orthonormalisation of the matrix" , best ) ;
    memcpy( out , u , sizeof( u ) ) ; before( "gram_reunit" , 0 , x , NULL , NULL , 0 ) ; load( u ) ; gram_reunit( out ) ; after( u , 1 , 1e-12 ) ;
    /* trace maximisation */
    before( "givens_reunit" , 0 , x , NULL , NULL , a&1 ) ; load( x->m ) ; givens_reunit( out ) ; memcpy( t , out , sizeof( t ) ) ; mc_trans( 1 ) ; if( !( m_unit( t ) < 1e-11*c ) ) bad( "not special unitary" , m_unit( t ) ) ;
    else { const double base = re_tr_max( x->m , u ) , got = re_tr_max( x->m , t ) , sc = norm( x->m ) ; if( !( got > base - 1e-10*sc*NC ) ) bad( "the trace is smaller than before the rotations" , got - base ) ;
      /* no SU(2) rotation improves the trace */
      cplx M[ NN ] ; m_mulad( M , x->m , t ) ; double gain = 0 ; for( i = 0 ; i < NC ; i++ ) for( j = i+1 ; j < NC ; j++ ) { const cplx s0 = M[ i*(NC+1) ] + conj( M[ j*(NC+1) ] ) , s1 = M[ i*NC+j ] - conj( M[ j*NC+i ] ) ; gain = fmax( gain , sqrt( creal( s0*conj( s0 ) + s1*conj( s1 ) ) ) - creal( s0 ) ) ; }
      if( !( gain < 1e-5*NC*sc ) ) bad( "the trace can still be increased by an SU(2) rotation" , gain/sc ) ; }
    /* polar projection */
    if( c < 1e3 && norm( x->m ) < 1e3 && norm( x->m ) > 1e-3 ) { before( "nape_reunit" , 0 , x , NULL , NULL , a&1 ) ; load( x->m ) ; const int st = GLU_SUCCESS ; nape_reunit( out ) ; cplx h[ NN ] , v[ NN ] , q[ NN ] ; double ev[ NC ] ; m_muldb( h , x->m , x->m ) ; m_eig_herm( ev , v , h ) ; if( st != GLU_SUCCESS ) bad( "does not converge" , c ) ; else {
        memcpy( t , out , sizeof( t ) ) ; for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) { q[ i*NC+j ] = 0 ; for( k = 0 ; k < NC ; k++ ) q[ i*NC+j ] += v[ i*NC+k ]*conj( v[ j*NC+k ] )/sqrt( ev[k] ) ; } m_mul( w , x->m , q ) ; m_scale( w , cpow( m_det( w ) , -1./NC ) ) ;
        double d = INFINITY ; for( k = 0 ; k < NC ; k++ ) { cplx z = cexp( 2*M_PI*I*k/NC ) ; double e = 0 ; for( i = 0 ; i < NN ; i++ ) e = fmax( e , cabs( t[i]*z - w[i] ) ) ; if( k == 0 || fabs( fabs( carg( m_det( x->m ) ) ) - M_PI ) < 1e-6 ) d = fmin( d , e ) ; }
        if( !( d < 1e-9*c ) ) bad( "is not the unitary factor of the polar decomposition" , d ) ; } mc_trans( 1 ) ; }
    if( dead > 6 ) return ; }
  for( a = 0 ; a < nS ; a++ ) { const mat *x = S + a ;
    before( "gram_reunit" , 0 , x , NULL , NULL , a&1 ) ; load( x->m ) ; gram_reunit( out ) ; after( x->m , 1 , 1e-12 ) ;
    before( "givens_reunit" , 0 , x , NULL , NULL , a&1 ) ; load( x->m ) ; givens_reunit( out ) ; after( x->m , 1 , 1e-11 ) ;
    before( "nape_reunit" , 0 , x , NULL , NULL , a&1 ) ; load( x->m ) ; nape_reunit( out ) ; after( x->m , 1 , 1e-10 ) ;
    before( "is_unitary" , 1 , x , NULL , NULL , 0 ) ; if( is_unitary( x->m ) != GLU_TRUE ) bad( "a unitary matrix is said not to be" , 0 ) ; kept( ) ; mc_trans( 1 ) ;
    size_t len ; for( i = 0 ; i < NN ; i++ ) { AL cplx y[ NN ] ; memcpy( y , x->m , sizeof( y ) ) ; y[i] += 1e-6*( 1 + I ) + 1e-5*y[i] ; before( "is_unitary" , 0 , x , NULL , NULL , 0 ) ; mc_capture( ) ; const int r = is_unitary( y ) ; free( mc_captured( &len ) ) ; mc_trans( 1 ) ; if( r == GLU_TRUE ) { bad( "a matrix with one wrong element is said to be unitary" , i ) ; break ; } }
#if NC < 4
    { double b[8] ; before( "shorten and rebuild" , 1 , x , NULL , NULL , a&1 ) ; shorten( b , x->m ) ; cplx w3[ NN ] ; memcpy( w3 , x->m , sizeof( w3 ) ) ; if( NC == 2 ? 1 : cabs( x->m[1] ) + cabs( x->m[2] ) > 1e-2 && cabs( x->m[0] ) > 1e-6 ) { rebuild( out , b ) ; after( w3 , 1 , NC == 2 ? 1e-7 : 1e-6 ) ; } }
#endif
    if( dead > 6 ) return ; }
}
static void logs( void )
{
  int a , i ; cplx w[ NN ] , p[ NN ] ; cplx o[ NN ] ;
  for( a = 0 ; a < nS ; a++ ) { const mat *x = S + a ; cplx h[ NN ] ; m_log_unitary( h , x->m ) ; double ev[ NC ] , mx = 0 ; cplx v[ NN ] ; m_eig_herm( ev , v , h ) ; for( i = 0 ; i < NC ; i++ ) mx = fmax( mx , fabs( ev[i] ) ) ; const int principal = cabs( m_tr( h ) ) < 1e-6 ;
    /* on the cut of the logarithm there is no unique answer */
    const int incut = mx > M_PI - 0.05 ; double gap = INFINITY ; int j ; for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < i ; j++ ) gap = fmin( gap , fabs( ev[i] - ev[j] ) ) ;
    if( incut ) continue ;
    const int nl = 4 ; int l ; for( l = 0 ; l < nl ; l++ ) {
      const char *nm[] = { "exact_log_slow" , "exact_log_slow_short" , "brute_force_log" , "get_iQ" } ; before( nm[l] , 1 , x , NULL , NULL , a&1 ) ; int st = GLU_SUCCESS ;
      if( l == 0 ) exact_log_slow( out , x->m ) ; else if( l == 1 ) { AL cplx q[ HERMSIZE+1 ] ; exact_log_slow_short( q , x->m ) ; rebuild_hermitian( out , q ) ; } else if( l == 2 ) { if( !principal ) continue ; st = brute_force_log( out , x->m , NC ) ; } else { if( NC > 3 || gap < 1e-3 || !principal ) continue ; get_iQ( out , x->m ) ; }
      if( st != GLU_SUCCESS ) { bad( "does not converge" , mx ) ; continue ; }
      memcpy( o , out , sizeof( o ) ) ; m_dag( p , o ) ; mc_trans( 1 ) ; double d = 0 ; for( i = 0 ; i < NN ; i++ ) d = fmax( d , cabs( o[i] - p[i] ) ) ; if( !( d < 1e-8 ) ) { bad( "is not hermitian" , d ) ; continue ; } if( !( cabs( m_tr( o ) ) < 1e-8 ) ) { bad( "is not traceless" , cabs( m_tr( o ) ) ) ; continue ; }
      if( principal || ( NC == 3 && gap > 1e-2 ) ) { m_expi( w , o ) ; d = 0 ; for( i = 0 ; i < NN ; i++ ) d = fmax( d , cabs( w[i] - x->m[i] ) ) ; const double tol = gap > 1e-2 ? 1e-10 : 1e-8 ; if( !( d < tol ) ) bad( "its exponential is not the matrix" , d ) ; }
      kept( ) ; }
    if( dead > 6 ) return ; }
}
static void projs( void )
{
  int a , i ; cplx w[ NN ] , d[ NN ] , q[ NN ] ;
  const mat *X = NC == 2 ? S : G ; const int n = NC == 2 ? nS : nG ;
  for( a = 0 ; a < n ; a++ ) { const mat *x = X + a ; const double sc = 2*norm( x->m ) ; m_dag( d , x->m ) ; AL cplx o[ HERMSIZE+1 ] ; cplx h[ NN ] ; for( i = 0 ; i < NN ; i++ ) h[i] = ( x->m[i] - d[i] )/2 ; const cplx tr = m_tr( h )/NC ; m_cp( w , h ) ; for( i = 0 ; i < NC ; i++ ) w[ i*(NC+1) ] -= tr ;
    before( "AntiHermitian_proj" , 1 , x , NULL , NULL , a&1 ) ; AntiHermitian_proj( out , x->m ) ; after( h , sc , E1 ) ;
    before( "trf_AntiHermitian_proj" , 1 , x , NULL , NULL , a&1 ) ; trf_AntiHermitian_proj( out , x->m ) ; after( w , sc , E1 ) ;
    before( "AntiHermitian_proj_short" , 1 , x , NULL , NULL , a&1 ) ; AntiHermitian_proj_short( o , x->m ) ; rebuild_antihermitian( out , o ) ; after( w , sc*NC , E1 ) ;
    for( i = 0 ; i < NN ; i++ ) q[i] = -I*w[i] ;
    before( "Hermitian_proj" , 1 , x , NULL , NULL , a&1 ) ; Hermitian_proj( out , x->m ) ; after( q , sc , E1 ) ;
    before( "Hermitian_proj_short" , 1 , x , NULL , NULL , a&1 ) ; Hermitian_proj_short( o , x->m ) ; rebuild_hermitian( out , o ) ; after( q , sc*NC , E1 ) ;
    if( dead > 6 ) return ; }
}
static void eigen( void )
{
  int a , i ; double complex z[ NC ] ;
#if NC < 4
  for( a = 0 ; a < nS ; a++ ) { const mat *x = S + a ; int l ; for( l = 0 ; l < 2 ; l++ ) { cplx h[ NN ] ; m_log_unitary( h , x->m ) ; double ev[ NC ] ; cplx v[ NN ] ; m_eig_herm( ev , v , h ) ; double gap = INFINITY ; int j , used[ NC ] ; for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < i ; j++ ) gap = fmin( gap , cabs( cexp( I*ev[i] ) - cexp( I*ev[j] ) ) ) ; memset( used , 0 , sizeof( used ) ) ; if( l == 1 && gap < 1e-4 ) continue ;
    before( l ? "Eigenvalues" : "Eigenvalues_suNC" , 1 , x , NULL , NULL , 0 ) ; for( i = 0 ; i < NC ; i++ ) z[i] = NAN ; if( l ) Eigenvalues( z , x->m ) ; else Eigenvalues_suNC( z , x->m ) ; mc_trans( 1 ) ;
    const double tol = gap > 1e-2 ? 1e-9 : 3e-5 ;
    for( i = 0 ; i < NC ; i++ ) { for( j = 0 ; j < NC ; j++ ) if( !used[j] && cabs( z[i] - cexp( I*ev[j] ) ) < tol ) { used[j] = 1 ; break ; } if( j == NC ) { bad( "is not an eigenvalue" , cabs( z[i] ) ) ; break ; } } kept( ) ; } if( dead > 6 ) return ; }
#else
  (void)a ; (void)i ; (void)z ;
#endif
}
static void lie( void )
{
  int a , b , c ; init_generators( ) ; compute_fs_and_ds( ) ; const double nm = NC == 2 ? 0.125 : 1 ; int list[ 40 ] , n = 0 ; for( a = 0 ; a < nH && n < 26 ; a++ ) if( norm( H[a].m ) > 0.01 && norm( H[a].m ) < 3 ) { if( strstr( H[a].n , "turned" ) || a%4 == 3 ) list[ n++ ] = a ; }
  for( a = 0 ; a < n ; a++ ) for( b = 0 ; b < n ; b++ ) for( c = 0 ; c < n ; c++ ) { const mat *x = H + list[a] , *y = H + list[b] , *u = H + list[c] ; cplx ab[ NN ] , ba[ NN ] ; m_mul( ab , x->m , y->m ) ; m_mul( ba , y->m , x->m ) ; const cplx t1 = m_trab( ab , u->m ) , t2 = m_trab( ba , u->m ) ; const double sc = 8*NN*NC*norm( x->m )*norm( y->m )*norm( u->m ) ;
    before( "ifabc_ABC" , 3 , x , y , u , 0 ) ; afterz( ifabc_ABC( x->m , y->m , u->m ) , 2*nm*( t1 - t2 ) , sc , 1e-12 ) ;
    before( "dabc_ABC" , 3 , x , y , u , 0 ) ; afterz( dabc_ABC( x->m , y->m , u->m ) , 2*nm*( t1 + t2 ) , sc , 1e-12 ) ;
    before( "ifabc_dabc_ABC" , 3 , x , y , u , 0 ) ; afterz( ifabc_dabc_ABC( x->m , y->m , u->m ) , 4*nm*t1 , sc , 1e-12 ) ; if( dead > 6 ) return ; }
  free_f_and_d( ) ; free_generators( ) ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C19" , "c19_matrix" ) ; mc_timeout( 800 ) ; int p ; const size_t d[] = { 2 , 2 , 2 , 2 , 2 } ;
  catalogues( ) ;
#define CASE( nm , body ) if( mc_begin nm ) { mcomp_config( 1 , POL_RR ) ; fx_dims( d ) ; attach_GLU( ) ; body ; mc_states( nG + nS + nH ) ; mc_traces( ncalls ) ; mc_distinct( mc_hash( &ncalls , sizeof( ncalls ) , 7 ) ) ; mc_sample( "%ld calls with %d general, %d special unitary and %d hermitian matrices" , ncalls , nG , nS , nH ) ; mc_end( ) ; }
  for( p = 0 ; p < 4 ; p++ ) CASE( ( "two matrices, part %d" , p ) , pairs( G , nG , G , nG , 0 , p , 4 ) )
  CASE( ( "two unitary matrices" ) , pairs( S , nS , S , nS , 1 , 0 , 1 ) )
  for( p = 0 ; p < 4 ; p++ ) CASE( ( "three matrices, part %d" , p ) , triples( p , 4 ) )
  CASE( ( "hermitian matrices" ) , herms( ) ) CASE( ( "one matrix" ) , unary( ) ) CASE( ( "reunitarisation" ) , reunit( ) ) CASE( ( "logarithms" ) , logs( ) ) CASE( ( "projections" ) , projs( ) ) CASE( ( "eigenvalues" ) , eigen( ) ) CASE( ( "structure constants" ) , lie( ) )
  return mc_finish( ) ;
}
