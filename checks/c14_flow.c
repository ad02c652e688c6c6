/* C14: Wilson flow.  The oracle is the three-register form of the third-order
   Runge-Kutta integrator evaluated with independent matrix arithmetic; every
   printed line is compared with the observables of the oracle's field. */
#include "fx.h"
#include "mc.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "SM_wrap.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

#define STOP_SCALE ( 0.1125*( NC*NC - 1 )/(double)NC )
#define TMAX 20.
typedef struct { double t , dt , err , p , q , gt , gtp ; int stop ; } line ;
static cplx *force( const cplx *U , int islog )
{
  cplx *Z = malloc( fxV*ND*NN*sizeof( cplx ) ) ; size_t i ; int mu , nu ;
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) {
    cplx s[ NN ] , w[ NN ] , h[ NN ] , z[ NN ] ; m_zero( s ) ; m_zero( z ) ;
    for( nu = 0 ; nu < ND ; nu++ ) if( nu != mu ) {
      if( !islog ) { r_staple( w , U , i , mu , nu ) ; m_add( s , w ) ; continue ; }
      cplx a[ NN ] , b[ NN ] ; const size_t d = fx_dn( i , nu ) ;
      m_mul( a , L(U,i,nu) , L(U,fx_up(i,nu),mu) ) ; m_mulad( a , a , L(U,fx_up(i,mu),nu) ) ; m_mulad( a , a , L(U,i,mu) ) ;
      m_muldb( b , L(U,d,nu) , L(U,d,mu) ) ; m_mul( b , b , L(U,fx_up(d,mu),nu) ) ; m_mulad( b , b , L(U,i,mu) ) ;
      m_log_unitary( h , a ) ; m_add( z , h ) ; m_log_unitary( h , b ) ; m_add( z , h ) ;
    }
    if( !islog ) { m_mulad( w , s , L(U,i,mu) ) ; m_herm_proj( z , w ) ; }
    m_cp( L(Z,i,mu) , z ) ;
  }
  return Z ;
}
static void kick( cplx *U , const cplx *a , double x , const cplx *b , double y , const cplx *c , double z )
{
  size_t k ; for( k = 0 ; k < fxV*ND ; k++ ) {
    cplx h[ NN ] , e[ NN ] ; m_zero( h ) ;
    m_axpy( h , x , a + k*NN ) ; if( b ) m_axpy( h , y , b + k*NN ) ; if( c ) m_axpy( h , z , c + k*NN ) ;
    m_expi( e , h ) ; m_mul( U + k*NN , e , U + k*NN ) ;
  }
}
/* exp(1/4 Z0) ; exp(8/9 Z1 - 17/36 Z0) ; exp(3/4 Z2 - 8/9 Z1 + 17/36 Z0) */
static void rstep( cplx *U , double dt , int islog )
{
  cplx *z0 , *z1 , *z2 ;
  z0 = force( U , islog ) ; kick( U , z0 , dt/4 , NULL , 0 , NULL , 0 ) ;
  z1 = force( U , islog ) ; kick( U , z1 , 8*dt/9 , z0 , -17*dt/36 , NULL , 0 ) ;
  z2 = force( U , islog ) ; kick( U , z2 , 3*dt/4 , z1 , -8*dt/9 , z0 , 17*dt/36 ) ;
  free( z0 ) ; free( z1 ) ; free( z2 ) ;
}
static void obs( line *l , const cplx *U , double t )
{
  double G , Q ; r_plaqs( &l->p , NULL , NULL , U ) ; r_GGQ( &G , &Q , NULL , U ) ;
  l->t = t ; l->q = -Q/( 64*M_PI*M_PI ) ; l->gt = t*t*G/( 16.*fxV ) ; l->gtp = t*t*32*( 1 - l->p ) ;
}
/* printed with six significant digits */
static int near6( double printed , double x , double slack ) { return fabs( printed - x ) <= 6e-6*fabs( x ) + slack ; }
static int parse( const char *s , line **out , double *t0 , double *w0 )
{
  int n = 0 , cap = 64 ; line *L = malloc( cap*sizeof( line ) ) ; *t0 = t0[1] = *w0 = w0[1] = -1 ;
  while( s && *s ) {
    line l ; double v , x ; char nm[ 32 ] ; l.stop = 0 ; int k = 0 ;
    if( ( k = sscanf( s , "[WFLOW] {err} %lf {t} %lf {dt} %lf {p} %lf {q} %lf {Gt} %lf {GtP} %lf" , &l.err , &l.t , &l.dt , &l.p , &l.q , &l.gt , &l.gtp ) ) != 7 )
      { k = sscanf( s , "[WFLOW-TSTOP] {err} %lf {t} %lf {dt} %lf {p} %lf {q} %lf {Gt} %lf {GtP} %lf" , &l.err , &l.t , &l.dt , &l.p , &l.q , &l.gt , &l.gtp ) ; l.stop = 1 ; }
    if( k == 7 ) { if( n == cap ) L = realloc( L , ( cap *= 2 )*sizeof( line ) ) ; L[ n++ ] = l ; }
    if( sscanf( s , "[GT-scale %31[a-zA-Z]] G(%lf) %lf" , nm , &x , &v ) == 3 ) t0[ strcmp( nm , "Clover" ) != 0 ] = v*v ;
    if( sscanf( s , "[WT-scale %31[a-zA-Z]] W(%lf) %lf" , nm , &x , &v ) == 3 ) w0[ strcmp( nm , "Clover" ) != 0 ] = v*v ;
    s = strchr( s , '\n' ) ; if( s ) s++ ;
  }
  *out = L ; return n ;
}
static double gtat( const cplx *U , double t , double d , int islog , int plaq )
{ cplx *W = fx_dup( U ) ; line l ; if( d != 0 ) rstep( W , d , islog ) ; obs( &l , W , t + d ) ; free( W ) ; return plaq ? l.gtp : l.gt ; }
/* scales: the reported t0 solves G(t0)=T0 and w0 solves t dG/dt = W0 on the oracle's flow */
static void scales( cplx **F , const line *R , int n , const double *t0 , const double *w0 , int islog , double res , const char *what )
{
  int p , i ;
  for( p = 0 ; p < 2 ; p++ ) {
    int up = 0 , unsure = 0 ;
    for( i = 1 ; i < n ; i++ ) {
      const double a = p ? R[i-1].gtp : R[i-1].gt , b = p ? R[i].gtp : R[i].gt ;
      if( a < STOP_SCALE && b > STOP_SCALE ) up = i ;
      if( fabs( a - STOP_SCALE ) < 1e-7 || fabs( b - STOP_SCALE ) < 1e-7 ) unsure = 1 ;
    }
    if( unsure ) continue ;
    /* the interpolation needs a few points and leaves the last one out: nothing is promised there */
    if( t0[p] < 0 && ( up == n-1 || n < 7 ) ) continue ;
    if( ( t0[p] < 0 ) != !up ) { mc_fail( "t0" , "%s: the %s flow time t0 is %s although the scale is %scrossed" , what , p ? "plaquette" : "clover" , t0[p] < 0 ? "not reported" : "reported" , up ? "" : "not " ) ; return ; }
    if( !up ) continue ;
    if( !( t0[p] > R[up-1].t - 1e-9 && t0[p] < R[up].t + 1e-9 ) ) { mc_fail( "t0" , "%s: t0 = %g is not between the times %g and %g around the crossing" , what , t0[p] , R[up-1].t , R[up].t ) ; return ; }
    if( n < 12 || R[up].t - R[up-1].t > 0.15*R[up].t ) continue ;
    const double g = gtat( F[up-1] , R[up-1].t , t0[p] - R[up-1].t , islog , p ) ;
    if( !( fabs( g/STOP_SCALE - 1 ) < res ) ) mc_fail( "t0" , "%s: the flow observable at the reported t0 = %g is %g, not %g" , what , t0[p] , g , STOP_SCALE ) ;
    if( w0[p] > 0 ) {
      for( i = 1 ; i < n && R[i].t < w0[p] ; i++ ) ;
      if( i == n ) { mc_fail( "w0" , "%s: w0 = %g lies outside the flow" , what , w0[p] ) ; return ; }
      if( i < 4 || i > n-4 ) continue ;
      const double d = w0[p] - R[i-1].t , h = 1e-3*w0[p] , W = w0[p]*( gtat( F[i-1] , R[i-1].t , d + h , islog , p ) - gtat( F[i-1] , R[i-1].t , d - h , islog , p ) )/( 2*h ) ;
      if( !( fabs( W/STOP_SCALE - 1 ) < 30*res ) ) mc_fail( "w0" , "%s: t dG/dt at the reported w0 = %g is %g, not %g" , what , w0[p] , W , STOP_SCALE ) ;
    }
    mc_trans( 1 ) ;
  }
}
static double worst ;
static int scalesseen ;
static int cmpline( const line *l , const line *r , double slack , const char *what , int k )
{
  const struct { const char *n ; double a , b ; } T[] = { { "plaquette" , l->p , r->p } , { "charge" , l->q , r->q } , { "clover" , l->gt , r->gt } , { "plaquette energy" , l->gtp , r->gtp } } ;
  int j ; for( j = 0 ; j < 4 ; j++ ) if( !near6( T[j].a , T[j].b , slack*( j == 3 ? 32*( 1 + r->t*r->t ) : 1 ) ) )
    { mc_fail( "line" , "%s: line %d reports %s %g at t = %g, the field at that time has %.9g" , what , k , T[j].n , T[j].a , l->t , T[j].b ) ; return 1 ; }
  return 0 ;
}
static void fixed( const cplx *U , int islog , double dt , int iters , long long mem )
{
  char what[ 160 ] ; snprintf( what , sizeof( what ) , "%s flow, dt %g, at most %d steps%s" , islog ? "log" : "stout" , dt , iters , mem < 1LL << 40 ? ", little memory" : "" ) ; mc_progress( "%s" , what ) ;
  struct site *lat = fx_lat( U ) ; struct sm_info S ; int k , n ; line *P ; double t0[2] , w0[2] ;
  memset( &S , 0 , sizeof( S ) ) ; S.type = islog ? SM_WFLOW_LOG : SM_WFLOW_STOUT ; S.dir = ND ; S.smiters = iters ;
  for( k = 0 ; k < ND-1 ; k++ ) Latt.sm_alpha[k] = k ? 0.77 : dt ;
  mcenv_membytes = mem ; mc_capture( ) ; const int st = SM_wrap_struct( lat , S ) ; size_t len ; char *o = mc_captured( &len ) ; if( getenv( "SHOW" ) ) fputs( o , stderr ) ; mcenv_membytes = 1LL << 40 ;
  mc_trans( 1 ) ; mc_traces( 1 ) ;
  if( st != GLU_SUCCESS ) {
    /* too little for either integrator: refused, and the field stays */
    if( mem == 1LL << 40 ) mc_fail( "status" , "%s: reports failure" , what ) ;
    if( fx_distlat( lat , U ) != 0 ) mc_fail( "status" , "%s: reports failure but changed the field" , what ) ;
    free( o ) ; free_lat( lat ) ; return ;
  }
  if( mem < 1LL << 40 && strstr( o , "slower" ) ) mc_sample( "slice-wise integrator used" ) ;
  n = parse( o , &P , t0 , w0 ) ; free( o ) ;
  cplx **F = calloc( iters + 2 , sizeof( cplx* ) ) ; line *R = calloc( iters + 2 , sizeof( line ) ) ;
  F[0] = fx_dup( U ) ; obs( R , U , 0 ) ; int m = 0 , done = 0 , amb = 0 ; double flow = 0 ;
  while( !done ) {
    m++ ; F[m] = fx_dup( F[m-1] ) ; rstep( F[m] , dt , islog ) ; obs( R + m , F[m] , m*dt ) ; R[m].dt = dt ;
    const double w = ( R[m].gt - flow )*R[m].t/dt ; flow = R[m].gt ;
    if( fabs( w - 1.5*STOP_SCALE ) < 1e-6 ) amb = 1 ;
    if( !( w < 1.5*STOP_SCALE && m < iters && R[m].t < TMAX ) ) done = 1 ;
  }
  const int over = R[m].t > TMAX ;
  cplx *last = fx_dup( F[m] ) ; int nr = m+1 ;
  if( over ) { rstep( last , TMAX - R[m].t , islog ) ; obs( R + nr , last , TMAX ) ; R[nr].dt = TMAX - R[m].t ; R[nr].stop = 1 ; nr++ ; }
  if( !amb ) {
    if( n != nr ) mc_fail( "count" , "%s: %d lines reported, %d steps expected" , what , n , nr ) ;
    else for( k = 0 ; k < n ; k++ ) {
      if( !( fabs( P[k].t - R[k].t ) < 2e-6 ) || ( k && !( fabs( P[k].dt - R[k].dt ) < 2e-5*fabs( R[k].dt ) ) ) || P[k].stop != R[k].stop ) { mc_fail( "time" , "%s: line %d is labelled t = %g with step %g, not t = %g with step %g" , what , k , P[k].t , P[k].dt , R[k].t , R[k].dt ) ; break ; }
      if( cmpline( P + k , R + k , 1e-7 , what , k ) ) break ;
      if( k && dt <= 0.03 && !islog && !( P[k].p >= P[k-1].p - 2e-6 ) ) { mc_fail( "monotonic" , "%s: the plaquette decreases from %.7g to %.7g at t = %g" , what , P[k-1].p , P[k].p , P[k].t ) ; break ; }
    }
    cplx *G = fx_get( lat ) ; const double e = fx_dist( G , last ) ; free( G ) ; if( e > worst ) worst = e ;
    const double tl = ( islog ? 1e-8 : 1e-10 )*( 1 + m ) ; 
    if( !( e <= tl ) ) mc_fail( "field" , "%s: the field is %g away from the integrated flow" , what , e ) ;
    if( !mc_nfail( ) && !over && fabs( R[m].t - TMAX ) > 1e-9 ) { scales( F , R , m+1 , t0 , w0 , islog , 2e-3 , what ) ; scalesseen += ( t0[0] > 0 ) + ( t0[1] > 0 ) + ( w0[0] > 0 ) + ( w0[1] > 0 ) ; }
  }
  mc_states( (long long)m*fxV*ND ) ; mc_distinct( fx_hash( last ) ) ;
  for( k = 0 ; k <= m ; k++ ) free( F[k] ) ;
  free( F ) ; free( R ) ; free( P ) ; free( last ) ; free_lat( lat ) ;
}
static void adaptive( const cplx *U , int islog , double dt , int iters )
{
  char what[ 160 ] ; snprintf( what , sizeof( what ) , "adaptive %s flow, first step %g, at most %d steps" , islog ? "log" : "stout" , dt , iters ) ; mc_progress( "%s" , what ) ;
  struct site *lat = fx_lat( U ) ; struct sm_info S ; int k , n ; line *P ; double t0[2] , w0[2] , slack = 0 ;
  memset( &S , 0 , sizeof( S ) ) ; S.type = islog ? SM_ADAPTWFLOW_LOG : SM_ADAPTWFLOW_STOUT ; S.dir = ND ; S.smiters = iters ;
  for( k = 0 ; k < ND-1 ; k++ ) Latt.sm_alpha[k] = k ? 0.77 : dt ;
  mc_capture( ) ; const int st = SM_wrap_struct( lat , S ) ; size_t len ; char *o = mc_captured( &len ) ; if( getenv( "SHOW" ) ) fputs( o , stderr ) ; mc_trans( 1 ) ; mc_traces( 1 ) ;
  if( st != GLU_SUCCESS ) mc_fail( "status" , "%s: reports failure" , what ) ;
  n = parse( o , &P , t0 , w0 ) ; free( o ) ;
  if( n < 2 || fabs( P[0].t ) > 1e-12 ) { mc_fail( "count" , "%s: only %d lines reported" , what , n ) ; goto end ; }
  cplx **F = calloc( n , sizeof( cplx* ) ) ; line *R = calloc( n , sizeof( line ) ) ; double t = 0 , maxdt = 0 ; int big = 0 ;
  F[0] = fx_dup( U ) ; obs( R , U , 0 ) ; if( cmpline( P , R , 1e-7 , what , 0 ) ) { }
  for( k = 1 ; k < n && !mc_nfail( ) ; k++ ) {
    const double d = P[k].stop ? TMAX - t : P[k].dt ; cplx *one = fx_dup( F[k-1] ) ; line l1 ;
    F[k] = fx_dup( F[k-1] ) ;
    if( P[k].stop ) { rstep( F[k] , d , islog ) ; t = TMAX ; if( k != n-1 ) mc_fail( "time" , "%s: the closing step is not the last" , what ) ; }
    else { rstep( F[k] , d/2 , islog ) ; rstep( F[k] , d/2 , islog ) ; rstep( one , d , islog ) ; t += d ; }
    obs( R + k , F[k] , t ) ; obs( &l1 , one , t ) ; free( one ) ; slack += 6e-6*fabs( d ) ; if( d > maxdt ) maxdt = d ;
    if( !P[k].stop && !( P[k].t > P[k-1].t ) ) mc_fail( "time" , "%s: the reported time goes from %g to %g" , what , P[k-1].t , P[k].t ) ;
    if( !( fabs( P[k].t - t ) < 2e-6 + slack ) ) mc_fail( "time" , "%s: line %d is labelled t = %.7g but the steps add up to %.7g" , what , k , P[k].t , t ) ;
    if( !( P[k].err <= 1.001e-6 ) ) mc_fail( "error" , "%s: a step with estimated error %g was accepted" , what , P[k].err ) ;
    if( !P[k].stop && !( t*t*fabs( R[k].p - l1.p ) <= 1.6e-6 ) ) mc_fail( "error" , "%s: step %d of %g at t = %g has error %g between one step and two half steps" , what , k , d , t , t*t*fabs( R[k].p - l1.p ) ) ;
    if( !P[k].stop && !( P[k].p >= P[k-1].p - 4e-6 ) ) mc_fail( "monotonic" , "%s: the plaquette decreases from %.7g to %.7g" , what , P[k-1].p , P[k].p ) ;
    if( !( d <= 0.0101*( t - d ) ) ) big++ ; /* the rest are measurements close to a scale */
    /* the printed steps have six digits: the oracle's time is that uncertain */
    if( !mc_nfail( ) ) cmpline( P + k , R + k , 4e-6 + 20*slack*( 1 + t ) , what , k ) ;
  }
  if( !mc_nfail( ) ) {
    const int last = n-1 , over = P[last].stop ;
    if( big > iters + over ) mc_fail( "count" , "%s: %d steps were taken" , what , big ) ;
    if( !over && P[last].t > TMAX + 1e-5 ) mc_fail( "time" , "%s: the flow ends at t = %g" , what , P[last].t ) ;
    /* stopping early needs a reason */
    if( !over && n-1 < iters && P[last].t < TMAX - 1e-5 ) {
      const double w = ( R[last].gt - R[last-1].gt )*R[last].t/( R[last].t - R[last-1].t ) ;
      if( !( w >= 1.5*STOP_SCALE*( 1 - 1e-3 ) ) ) mc_fail( "count" , "%s: stopped after %d steps at t = %g without a reason" , what , n-1 , P[last].t ) ;
    }
    cplx *G = fx_get( lat ) ; const double e = fx_dist( G , F[last] ) ; free( G ) ; if( e > worst ) worst = e ;
    if( !( e <= 1e-6 + 10*slack ) ) mc_fail( "field" , "%s: the field is %g away from the flow integrated over the reported steps" , what , e ) ;
    if( !mc_nfail( ) && !over && fabs( R[last].t - TMAX ) > 1e-4 ) { scales( F , R , n , t0 , w0 , islog , 1e-2 , what ) ; scalesseen += ( t0[0] > 0 ) + ( t0[1] > 0 ) + ( w0[0] > 0 ) + ( w0[1] > 0 ) ; }
  }
  mc_states( (long long)n*fxV*ND ) ; mc_distinct( fx_hash( F[n-1] ? F[n-1] : U ) ) ;
  for( k = 0 ; k < n ; k++ ) free( F[k] ) ;
  free( F ) ; free( R ) ;
end :
  free( P ) ; free_lat( lat ) ;
}
static cplx *start( int k , int islog )
{
  cplx *U = fx_field( k , 31 ) ;
  if( islog && k == F_MED ) { uint64_t sd = 99 ; size_t i ; for( i = 0 ; i < fxV*ND ; i++ ) fx_su_near( U + i*NN , &sd , 0.18 ) ; }
  return U ;
}
/* little memory: enough for the slice-wise integrator only */
static long long membytes( int little )
{
  const double herm = NC == 3 ? NC*( NC+1 )/2 - 2 : NC == 2 ? 2 : NC*( NC+1 )/2 ;
  return little ? (long long)( 16.*fxV*ND*( 1.97*NN + 0.99*herm ) ) : 1LL << 40 ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C14" , "c14_flow" ) ; mc_timeout( 800 ) ; attach_GLU( ) ;
  const int th = mc_thorough( ) ;
  size_t *sh ; const int ns = fx_few_shapes( &sh , th || NC == 3 ? 2 : 1 ) ; int s , lg , k , a , j , m ;
  static const double dts[] = { 0.02 , 0.005 , 0.1 } ; static const int its[] = { 1 , 2 , 3 , 5 , 8 } ;
  static const char use[3][6] = { "11010" , "01000" , "00100" } , usea[3][6] = { "10100" , "01010" , "00100" } ;
  mcomp_config( 1 , POL_RR ) ; mcenv_membytes = 1LL << 40 ;
  for( s = 0 ; s < ns ; s++ ) {
    char n[ 100 ] = "" ; int l = 0 , mu ; for( mu = 0 ; mu < ND ; mu++ ) l += sprintf( n + l , "%s%zu" , mu ? "x" : "" , sh[ s*ND + mu ] ) ;
    size_t vol = 1 ; for( mu = 0 ; mu < ND ; mu++ ) vol *= sh[ s*ND + mu ] ;
    for( lg = 0 ; lg < 2 ; lg++ ) for( k = 0 ; k < F_NKIND ; k++ ) {
      if( k == F_CENTER || ( lg && ( k == F_HOT || k == F_DIAG ) ) ) continue ;
      for( m = 0 ; m < 2 ; m++ ) {
	if( m && sh[ s*ND + ND-1 ] < 4 ) continue ;
	if( mc_begin( "fixed %s %s %s%s" , lg ? "log" : "stout" , n , fx_kindname[k] , m ? " little memory" : "" ) ) {
	  mcomp_config( 1 + s%3 , POL_RR ) ; fx_dims( sh + s*ND ) ; cplx *U = start( k , lg ) ;
	  for( a = 0 ; a < 3 && !mc_nfail( ) ; a++ ) for( j = 0 ; j < 5 && !mc_nfail( ) ; j++ ) if( th || use[a][j] == '1' ) fixed( U , lg , dts[a] , its[j] , membytes( m ) ) ;
	  mc_sample( "largest field difference %.1e" , worst ) ; free( U ) ; fx_undims( ) ; mc_end( ) ;
	}
	/* flows long enough to reach the scales or the last time */
	if( vol <= ( th ? 200 : NC == 3 ? 24 : 16 ) || ( m && vol <= 48 && NC == 3 && ( k == F_COLD || k == F_HOT ) ) )
	if( mc_begin( "long %s %s %s%s" , lg ? "log" : "stout" , n , fx_kindname[k] , m ? " little memory" : "" ) ) {
	  mcomp_config( 1 + s%2 , POL_RR ) ; fx_dims( sh + s*ND ) ; cplx *U = start( k , lg ) ;
	  if( k == F_COLD ) { fixed( U , lg , 6. , 40 , membytes( m ) ) ; fixed( U , lg , 5. , 40 , membytes( m ) ) ; fixed( U , lg , 6. , 2 , membytes( m ) ) ; if( !m ) adaptive( U , lg , 0.1 , 40 ) ; }
	  else {
	    fixed( U , lg , k == F_WEAK ? 0.15 : 0.01 , k == F_WEAK ? 200 : 60 , membytes( m ) ) ;
	    if( th && !mc_nfail( ) ) fixed( U , lg , 0.03 , 60 , membytes( m ) ) ;
	    if( !m && !mc_nfail( ) ) adaptive( U , lg , 0.02 , 40 ) ;
	  }
	  mc_sample( "%d scales compared, largest field difference %.1e" , scalesseen , worst ) ; free( U ) ; fx_undims( ) ; mc_end( ) ;
	}
      }
      if( mc_begin( "adaptive %s %s %s" , lg ? "log" : "stout" , n , fx_kindname[k] ) ) {
	mcomp_config( 1 + s%3 , POL_RR ) ; fx_dims( sh + s*ND ) ; cplx *U = start( k , lg ) ;
	static const double d0[] = { 0.01 , 0.05 , 0.3 } ;
	for( a = 0 ; a < 3 && !mc_nfail( ) ; a++ ) for( j = 0 ; j < 5 && !mc_nfail( ) ; j++ ) if( th || usea[a][j] == '1' ) adaptive( U , lg , d0[a] , its[j] ) ;
	mc_sample( "largest field difference %.1e" , worst ) ; free( U ) ; fx_undims( ) ; mc_end( ) ;
      }
    }
  }
  free( sh ) ;
  return mc_finish( ) ;
}
