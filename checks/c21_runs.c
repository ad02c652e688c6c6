/* C21: every run of the program produces its documented result or a reported failure */
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "fx.h"
#include "fmt.h"
#include "mcomp.h"
#include "mcenv.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "SM_wrap.h"
#include "GF_wrap.h"
#include "CUT_wrap.h"
#include "OBS_wrap.h"
#include "SUNCxU1_config.h"
#include "random_config.h"
#include "BPST_config.h"
#include "par_rng.h"
#include "cli.h"
#include <math.h>
#include <errno.h>
/* ---- the runs: options of the input file and what the library does when asked directly */
enum { R_CHECK , R_SMEAR , R_FIX , R_U1 , R_CUT } ;
typedef struct { const char *name ; int mode , sub , b , c ; const char *tag , *val , *t2 , *v2 ; double tol ; } run ;
static run R[ 80 ] ; static int nr ;
static void add( const char *nm , int mode , int sub , int b , int c , const char *tag , const char *val , const char *t2 , const char *v2 , double tol )
{ char *s = strdup( nm ) ; R[ nr++ ] = (run){ s , mode , sub , b , c , tag , val , t2 , v2 , tol } ; }
static void runs( void )
{
  static const char *sm[] = { "APE" , "STOUT" , "LOG" , "HYP" , "HEX" , "HYL" , "WFLOW_STOUT" , "WFLOW_LOG" , "ADAPTWFLOW_STOUT" , "ADAPTWFLOW_LOG" } ;
  static const int st[] = { SM_APE , SM_STOUT , SM_LOG , SM_HYP , SM_HEX , SM_HYL , SM_WFLOW_STOUT , SM_WFLOW_LOG , SM_ADAPTWFLOW_STOUT , SM_ADAPTWFLOW_LOG } ;
  static const char *cu[] = { "EXCEPTIONAL" , "NON_EXCEPTIONAL" , "FIELDS" , "SMEARED_GLUONS" , "INSTANTANEOUS_GLUONS" , "CONFIGSPACE_GLUONS" , "GLUON_PROPS" , "STATIC_POTENTIAL" , "TOPOLOGICAL_CORRELATOR" , "TOPOLOGICAL_SUSCEPTIBILITY" , "TOPOLOGICAL_MOMENTS" } ;
  static const int ct[] = { EXCEPTIONAL , NONEXCEPTIONAL , FIELDS , SMEARED_GLUONS , INSTANTANEOUS_GLUONS , CONFIGSPACE_GLUONS , GLUON_PROPS , STATIC_POTENTIAL , TOPOLOGICAL_CORRELATOR , TOPOLOGICAL_SUSCEPTIBILITY , TOPOLOGICAL_MOMENTS } ;
  int k ; char n[ 80 ] ;
  add( "CHECK" , R_CHECK , 0 , 0 , 0 , "GFTYPE" , "NOTHING" , "CUTTYPE" , "NOTHING" , 1e-12 ) ; add( "CHECK transformed" , R_CHECK , 0 , 1 , 0 , "RANDOM_TRANSFORM" , "YES" , NULL , NULL , 1e-11 ) ;
  for( k = 0 ; k < 10 ; k++ ) add( sm[k] , R_SMEAR , st[k] , 0 , ALL_DIRECTIONS , "SMEARTYPE" , sm[k] , "DIRECTION" , "ALL" , 1e-8 ) ;
  for( k = 0 ; k < 4 ; k++ ) { snprintf( n , 80 , "%s spatial" , sm[k] ) ; add( n , R_SMEAR , st[k] , 0 , SPATIAL_LINKS_ONLY , "SMEARTYPE" , sm[k] , "DIRECTION" , "SPATIAL" , 1e-8 ) ; }
  add( "STOUT transformed" , R_SMEAR , SM_STOUT , 1 , ALL_DIRECTIONS , "SMEARTYPE" , "STOUT" , "RANDOM_TRANSFORM" , "YES" , 1e-8 ) ;
  add( "no smearing" , R_SMEAR , SM_NOSMEARING , 0 , ALL_DIRECTIONS , "SMEARTYPE" , "NOTHING" , NULL , NULL , 1e-12 ) ;
  if( op_fftw || NC > 1 ) { add( "LANDAU" , R_FIX , GLU_LANDAU_FIX , 0 , 0 , "GFTYPE" , "LANDAU" , NULL , NULL , 1e-5 ) ; add( "COULOMB" , R_FIX , GLU_COULOMB_FIX , 0 , 0 , "GFTYPE" , "COULOMB" , NULL , NULL , 1e-5 ) ;
    add( "COULOMB_RESIDUAL" , R_FIX , GLU_COULOMB_RESIDUAL_FIX , 0 , 0 , "GFTYPE" , "COULOMB_RESIDUAL" , NULL , NULL , 1e-5 ) ; }
  add( "AXIALT" , R_FIX , GLU_AXIALT_FIX , 0 , 0 , "GFTYPE" , "AXIALT" , NULL , NULL , 1e-9 ) ; add( "MAG" , R_FIX , GLU_MAG_FIX , 0 , 0 , "GFTYPE" , "MAG" , NULL , NULL , 1e-9 ) ; add( "MAG transformed" , R_FIX , GLU_MAG_FIX , 1 , 0 , "GFTYPE" , "MAG" , "RANDOM_TRANSFORM" , "YES" , 1e-9 ) ;
  add( "no fixing" , R_FIX , DEFAULT_NOFIX , 0 , 0 , "GFTYPE" , "NOTHING" , NULL , NULL , 1e-9 ) ;
  if( op_fftw ) { add( "U1" , R_U1 , U1_RECTANGLE , 0 , 0 , "U1_MEAS" , "U1_RECTANGLE" , NULL , NULL , 1e-11 ) ; add( "U1 plaquette" , R_U1 , U1_PLAQUETTE , 0 , 0 , "U1_MEAS" , "U1_PLAQUETTE" , "U1_CHARGE" , "0.3333333333333333" , 1e-11 ) ; add( "U1 topological" , R_U1 , U1_TOPOLOGICAL , 0 , 0 , "U1_MEAS" , "U1_TOPOLOGICAL" , NULL , NULL , 1e-11 ) ; }
  for( k = 0 ; k < 11 ; k++ ) add( cu[k] , R_CUT , ct[k] , LINEAR_DEF , PSQ_CUT , "CUTTYPE" , cu[k] , NULL , NULL , 1e-8 ) ;
  add( "GLUON_PROPS log" , R_CUT , GLUON_PROPS , LOG_DEF , PSQ_CUT , "CUTTYPE" , "GLUON_PROPS" , "FIELD_DEFINITION" , "LOGARITHMIC" , 1e-8 ) ;
  add( "GLUON_PROPS hypercubic" , R_CUT , GLUON_PROPS , LINEAR_DEF , HYPERCUBIC_CUT , "CUTTYPE" , "GLUON_PROPS" , "MOM_CUT" , "HYPERCUBIC_CUT" , 1e-8 ) ;
  add( "GLUON_PROPS cylinder" , R_CUT , GLUON_PROPS , LINEAR_DEF , CYLINDER_CUT , "CUTTYPE" , "GLUON_PROPS" , "MOM_CUT" , "CYLINDER_CUT" , 1e-8 ) ;
  add( "GLUON_PROPS cone" , R_CUT , GLUON_PROPS , LINEAR_DEF , CYLINDER_AND_CONICAL_CUT , "CUTTYPE" , "GLUON_PROPS" , "MOM_CUT" , "CONICAL_CUT" , 1e-8 ) ;
  add( "no cut" , R_CUT , GLU_NOCUTS , LINEAR_DEF , PSQ_CUT , "CUTTYPE" , "NOTHING" , NULL , NULL , 1e-8 ) ;
}
static const char *modename[] = { "CHECK" , "SMEARING" , "GAUGE_FIXING" , "SUNCxU1" , "CUTTING" } ;
static const struct { const char *n ; header_mode h ; } HD[] = { { "NERSC" , NERSC_HEADER } , { "HIREP" , HIREP_HEADER } , { "MILC" , MILC_HEADER } , { "SCIDAC" , SCIDAC_HEADER } , { "ILDG_SCIDAC" , ILDG_SCIDAC_HEADER } , { "ILDG_BQCD" , ILDG_BQCD_HEADER } , { "LIME" , LIME_HEADER } , { "JLQCD" , JLQCD_HEADER } , { "CERN" , CERN_HEADER } } ;
static const char *header( header_mode h ) { size_t i ; for( i = 0 ; i < sizeof( HD )/sizeof( HD[0] ) ; i++ ) if( HD[i].h == h ) return HD[i].n ; abort( ) ; }
static const struct { const char *n ; GLU_output o ; header_mode h ; } ST[] = { { "NERSC_NCxNC" , OUTPUT_NCxNC , NERSC_HEADER } , { "NERSC_GAUGE" , OUTPUT_GAUGE , NERSC_HEADER } , { "NERSC_SMALL" , OUTPUT_SMALL , NERSC_HEADER } , { "HIREP" , OUTPUT_HIREP , HIREP_HEADER } , { "MILC" , OUTPUT_MILC , MILC_HEADER } , { "SCIDAC" , OUTPUT_SCIDAC , SCIDAC_HEADER } , { "ILDG" , OUTPUT_ILDG , ILDG_SCIDAC_HEADER } , { "CERN" , OUTPUT_CERN , CERN_HEADER } } ;
#define NST ( NC == 3 && ND == 4 ? 8 : 7 )
/* what is really stored */
static GLU_output stored( int s , const run *r )
{
  if( r->mode == R_U1 && ( ST[s].h == NERSC_HEADER || ( NC == 2 && ST[s].h == HIREP_HEADER ) ) ) return OUTPUT_NCxNC ;
  if( NC > 3 && ST[s].o == OUTPUT_SMALL ) return OUTPUT_NCxNC ;
  return ST[s].o ;
}
static fmt_t format( int s , const run *r )
{ const GLU_output o = stored( s , r ) ; fmt_t f = { ST[s].h , OUTPUT_NCxNC , 1 , ST[s].h == CERN_HEADER ? 0 : 1 } ; if( o == OUTPUT_NCxNC ) f.head = NERSC_HEADER ; if( f.head == NERSC_HEADER ) f.store = o ; return f ; }
static int topo( const run *r ) { return r->mode == R_CUT && ( r->sub == TOPOLOGICAL_CORRELATOR || r->sub == TOPOLOGICAL_MOMENTS || r->sub == TOPOLOGICAL_SUSCEPTIBILITY ) ; }
static const unsigned SEED = 1234 ;
static void direct( void )
{ int i ; for( i = 0 ; i < ND-1 ; i++ ) Latt.sm_alpha[i] = 0.3 - 0.05*i ; Latt.gf_alpha = 0.08 ; Latt.Seed[0] = SEED ; Latt.flow = 7 ; Latt.head = NERSC_HEADER ; Latt.argc = 5 ; }
static void options( const run *r , header_mode in , int s )
{
  int mu ; char d[ 12 ] ; static char dflt[ CLI_NO ][ 64 ] ; static int first = 1 ; int i ; if( first ) { for( i = 0 ; i < CLI_NO ; i++ ) strcpy( dflt[i] , cli_opt[i].val ) ; first = 0 ; } for( i = 0 ; i < CLI_NO ; i++ ) strcpy( cli_opt[i].val , dflt[i] ) ;
  for( mu = 0 ; mu < ND ; mu++ ) { snprintf( d , 12 , "DIM_%d" , mu ) ; cli_set( d , "%zu" , Latt.dims[mu] ) ; } for( mu = 0 ; mu < ND-1 ; mu++ ) { snprintf( d , 12 , "ALPHA%d" , mu+1 ) ; cli_set( d , "%g" , 0.3 - 0.05*mu ) ; }
  cli_set( "MODE" , modename[ r->mode ] ) ; cli_set( "HEADER" , "%s" , header( in ) ) ; cli_set( "STORAGE" , "%s" , ST[s].n ) ; cli_set( "SEED" , "%u" , SEED ) ; cli_set( "CONFNO" , "7" ) ; cli_set( "GF_TUNE" , "0.08" ) ; cli_set( "ACCURACY" , "13" ) ; cli_set( "MAX_ITERS" , "2000" ) ;
  cli_set( "SMITERS" , "2" ) ; cli_set( "SMEARTYPE" , "STOUT" ) ; cli_set( "MAXMOM" , "2" ) ; cli_set( "MAX_T" , topo( r ) ? "3" : "1" ) ; cli_set( "U1_CHARGE" , "-1.0" ) ; cli_set( "U1_ALPHA" , "0.0795" ) ;
  cli_set( r->tag , "%s" , r->val ) ; if( r->t2 ) cli_set( r->t2 , "%s" , r->v2 ) ;
}
/* the eight-parameter form is documented to be unstable: it is singular where all but the first element of a row vanish */
static double small_tol( fmt_t f , const cplx *U )
{
  size_t i ; double worst = 0 ; int cold = 1 ; cplx id[ NN ] ; if( f.head != NERSC_HEADER || f.store != OUTPUT_SMALL ) return 0 ; m_id( id ) ;
  for( i = 0 ; i < fxV*ND ; i++ ) { const cplx *u = U + i*NN ; double n = 1 , q = cabs( u[0] ) ; if( m_dist( u , id ) == 0 ) continue ; cold = 0 ;
#if NC == 3
    n = cabs( u[1] )*cabs( u[1] ) + cabs( u[2] )*cabs( u[2] ) ; if( cabs( u[6] ) < q ) q = cabs( u[6] ) ;
#endif
    const double s = 1/( ( n > 1e-20 ? n : 1e-20 )*( q > 1e-8 ? q : 1e-8 ) ) ; if( s > worst ) worst = s ; }
  return cold ? 1e-13 : 4e-14*worst ;
}
/* the operation by direct calls; the field becomes the result. files appear in the working directory */
static char *said ; static size_t nsaid ;
static int model( const run *r , cplx *U , header_mode in )
{
  int s = GLU_SUCCESS ; direct( ) ; (void)in ; free_par_rng( ) ; struct site *lat = fx_lat( U ) ; struct sm_info S ; memset( &S , 0 , sizeof( S ) ) ; mc_capture( ) ;
  if( r->mode != R_CUT && r->b ) random_gtrans( lat ) ;
  S.type = r->mode == R_SMEAR ? r->sub : SM_STOUT ; S.dir = r->mode == R_SMEAR ? r->c : ALL_DIRECTIONS ; S.smiters = 2 ;
  switch( r->mode ) {
  case R_CHECK : gauge( lat ) ; break ;
  case R_SMEAR : s = SM_wrap_struct( lat , S ) ; break ;
  case R_FIX : { struct gf_info G ; memset( &G , 0 , sizeof( G ) ) ; G.type = r->sub ; G.max_iters = 2000 ; G.accuracy = 1e-13 ; s = GF_wrap( "none" , lat , G ) ; } break ;
  case R_U1 : { struct u1_info u ; u.alpha = 0.0795 ; u.charge = r->v2 ? 1/3. : -1 ; u.meas = r->sub ; s = suNC_cross_u1( lat , u ) ; } break ;
  default : { struct cut_info C ; memset( &C , 0 , sizeof( C ) ) ; C.dir = r->sub ; C.definition = r->b ; C.type = r->c ; C.max_t = topo( r ) ? 3 : 1 ; C.max_mom = 2 ; C.angle = 60 ; C.cyl_width = 2.0 ; strcpy( C.where , "./" ) ; s = cuts_wrap_struct( lat , C , S ) ; }
  }
  free( said ) ; said = mc_captured( &nsaid ) ; cplx *V = fx_get( lat ) ; memcpy( U , V , fxV*ND*NN*sizeof( cplx ) ) ; free( V ) ; free_lat( lat ) ; free_par_rng( ) ; return s ;
}
static char where[ 300 ] ;
/* every number the operation prints when called directly appears in the output of the program, in order */
static void printed( const run *r )
{
  static double a[ 20000 ] , b[ 60000 ] ; const long na = op_numbers( said , a , 20000 ) , nb = op_numbers( cli_out ? cli_out : "" , b , 60000 ) ; long o , i ; if( r->mode == R_FIX && r->tol > 1e-8 ) return ;
  for( o = 0 ; o + na <= nb ; o++ ) { for( i = 0 ; i < na ; i++ ) if( !( fabs( a[i] - b[ o+i ] ) <= 10*r->tol*( 1 + fabs( a[i] ) ) + 2e-6*fabs( a[i] ) || fabs( a[i] - b[ o+i ] ) < 1e-9 ) ) break ; if( i == na ) { mc_trans( na ) ; return ; } }
  if( getenv( "MC_STDERR" ) ) fprintf( stderr , "---direct\n%s---program\n%s" , said , cli_out ) ; mc_fail( "printed" , "%s: the %ld numbers which the operation prints are not among the %ld the program prints" , where , na , nb ) ;
}
/* observables that the program prints for the field of a file */
static void observables( const cplx *U , double tol )
{
  double p , s , t , q[3] ; int k ; r_plaqs( &p , &s , &t , U ) ; const double w[3] = { p , s , t } ; const char *lab[] = { "[PLAQS SU(%d)]          ::" , "[PLAQS SU(%d) spatial]  ::" , "[PLAQS SU(%d) temporal] ::" } ;
  for( k = 0 ; k < 3 ; k++ ) { char l[ 64 ] ; snprintf( l , 64 , lab[k] , NC ) ; const char *c = cli_out ? strstr( cli_out , l ) : NULL ; if( !c || sscanf( c + strlen( l ) , "%lf" , q+k ) != 1 ) { mc_fail( "observables" , "%s: no plaquettes are printed" , where ) ; return ; } if( fabs( q[k] - w[k] ) > tol ) { mc_fail( "observables" , "%s: the plaquette %.12f is printed for a field with %.12f" , where , q[k] , w[k] ) ; return ; } }
}
static void mark( const char *d ) { if( chdir( mc_scratch( ) ) ) abort( ) ; mkdir( d , 0700 ) ; if( chdir( d ) ) abort( ) ; cli_clean( "." ) ; }
/* names in the working directory are a and possibly b */
static int onlyfiles( const char *a , const char *b )
{ const int n = cli_ls( "." ) ; int i , ha = !a , hb = !b ; for( i = 0 ; i < n ; i++ ) { if( a && !strcmp( cli_names[i] , a ) ) ha = 1 ; else if( b && !strcmp( cli_names[i] , b ) ) hb = 1 ; else { mc_fail( "files" , "%s: a file %s appears" , where , cli_names[i] ) ; return 0 ; } }
  if( !ha || !hb ) { mc_fail( "files" , "%s: %s is missing" , where , ha ? b : a ) ; return 0 ; } return 1 ; }
static void reported( int s , const char *what )
{ if( s == 0 ) mc_fail( "success" , "%s %s: the program reports success" , where , what ) ; else if( s < 0 || s == 77 || s == 127 ) mc_fail( "crash" , "%s %s: the program dies (%d)" , where , what , s ) ; else if( !cli_err || !*cli_err ) mc_fail( "silent" , "%s %s: the failure is not explained" , where , what ) ; }
static cplx *decode( const char *file , fmt_t f , fmt_file *d )
{ size_t n ; unsigned char *b = fmt_slurp( file , &n ) ; if( !b ) return NULL ; fmt_decode( d , f , b , n ) ; free( b ) ; return d->err[0] ? NULL : d->U ; }
static int known( const size_t *dims ) { int mu ; for( mu = 0 ; mu < ND ; mu++ ) if( dims[mu] != Latt.dims[mu] ) return 0 ; return 1 ; }
/* one run of the program on a file that holds the field U; on return U is the expected result.
   1: the run is compared and out holds it, 0: nothing to go on with */
static int single( const run *r , const char *in , header_mode h , cplx *U , int s , const char *out , double extra )
{
  int ms , st , k ; char cwd[ 400 ] , nm[ 40 ][ 80 ] ; size_t la , lb ; char *before , *after ; if( !getcwd( cwd , 400 ) ) abort( ) ; before = cli_slurp( in , &lb ) ;
  cplx *U0 = fx_dup( U ) ; const struct latt_info keep = Latt ;
  mkdir( ".model" , 0700 ) ; if( chdir( ".model" ) ) abort( ) ; cli_clean( "." ) ; ms = model( r , U , h ) ; const int nm0 = cli_ls( "." ) ; for( k = 0 ; k < nm0 && k < 40 ; k++ ) snprintf( nm[k] , 80 , "%s" , cli_names[k] ) ; if( chdir( cwd ) ) abort( ) ; Latt.head = keep.head ;
  options( r , h , s ) ; mc_states( 1 ) ; st = cli_run( in , out , 200 ) ; mc_distinct( mc_hash( where , strlen( where ) , st ) ) ;
  after = cli_slurp( in , &la ) ; if( !after || la != lb || memcmp( before , after , la ) ) mc_fail( "input" , "%s: the input configuration is changed" , where ) ; free( before ) ; free( after ) ;
  if( ms == GLU_FAILURE ) { reported( st , "(an operation that fails)" ) ; onlyfiles( in , NULL ) ; free( U0 ) ; return 0 ; }
  if( st != 0 ) { char e[ 120 ] ; snprintf( e , 120 , "%s" , cli_err ? cli_err : "" ) ; for( k = 0 ; e[k] ; k++ ) if( e[k] == '\n' ) e[k] = '|' ; mc_fail( "status" , "%s: exit status %d: %s" , where , st , e ) ; free( U0 ) ; return 0 ; }
  printed( r ) ; if( r->mode == R_CHECK ) observables( U , 1e-9 + extra ) ; free( U0 ) ;
  if( r->mode == R_CUT ) {
    if( nm0 == 0 && r->sub != GLU_NOCUTS ) mc_fail( "measurement" , "%s: the measurement produces no file" , where ) ;
    for( k = 0 ; k < nm0 && k < 40 ; k++ ) { char p[ 120 ] ; snprintf( p , 120 , ".model/%s" , nm[k] ) ; char *a = cli_slurp( p , &la ) , *b = cli_slurp( nm[k] , &lb ) ; if( !a || !b || la != lb || !op_files_close( (unsigned char*)a , la , (unsigned char*)b , lb , 1e-6 ) ) mc_fail( "measurement" , "%s: the file %s differs from that of the operation called directly (%zu and %zu bytes)" , where , nm[k] , lb , la ) ;
      free( a ) ; free( b ) ; unlink( nm[k] ) ; }
    onlyfiles( in , NULL ) ; return 0 ;
  }
  if( !out ) { onlyfiles( in , NULL ) ; return 0 ; }
  if( !onlyfiles( in , out ) ) return 0 ;
  fmt_file d ; const fmt_t f = format( s , r ) ; cplx *V = decode( out , f , &d ) ; if( !V ) { mc_fail( "decode" , "%s: the output is no valid %s file: %s" , where , ST[s].n , d.err ) ; return 0 ; }
  if( f.head != HIREP_HEADER && f.head != CERN_HEADER && !known( d.dims ) ) mc_fail( "extents" , "%s: the output has other extents" , where ) ;
  double x = fx_dist( U , V ) ; const double tol = r->tol + extra + small_tol( f , U ) ; if( small_tol( f , U ) > 1e-7 ) { free( V ) ; return 0 ; }
  if( !( x <= tol ) ) mc_fail( "field" , "%s: the output differs from what the operation gives by %.3g" , where , x ) ;
  memcpy( U , V , fxV*ND*NN*sizeof( cplx ) ) ; free( V ) ; if( f.store == OUTPUT_SMALL ) { size_t i ; for( i = 0 ; i < fxV*ND ; i++ ) m_reunit( U + i*NN ) ; } return !mc_nfail( ) ;
}
static void put( const char *file , fmt_t f , const cplx *U ) { size_t n , o , l ; unsigned char *b = fmt_encode( f , U , 7 , &n , &o , &l ) ; fmt_spit( file , b , n ) ; free( b ) ; }
static const fmt_t NER = { NERSC_HEADER , OUTPUT_NCxNC , 1 , 1 } ;
static int kindof( const run *r ) { return r->mode == R_FIX || ( r->mode == R_SMEAR && ( r->sub == SM_WFLOW_LOG || r->sub == SM_ADAPTWFLOW_LOG ) ) ? F_WEAK : F_MED ; }
static void every( const run *r , int sh )
{
  int s ; for( s = 0 ; s < NST && !mc_nfail( ) ; s++ ) {
    if( r->mode == R_CUT && s ) break ;
    mark( "w" ) ; cplx *U = fx_field( kindof( r ) , 11 + sh ) ; put( "in" , NER , U ) ; snprintf( where , 300 , "%s, %s" , r->name , ST[s].n ) ; mc_progress( "%s" , where ) ;
    single( r , "in" , NERSC_HEADER , U , s , r->mode == R_CUT ? NULL : "out" , 0 ) ; free( U ) ;
    if( s == 0 ) { mark( "v" ) ; U = fx_field( kindof( r ) , 11 + sh ) ; put( "in" , NER , U ) ; snprintf( where , 300 , "%s, no output" , r->name ) ; single( r , "in" , NERSC_HEADER , U , s , NULL , 0 ) ; free( U ) ; }
  }
}
static void formats( int which )
{
  fmt_t F[ 40 ] ; const int n = fmt_all( F ) ; int k , s ;
  for( k = 0 ; k < n && !mc_nfail( ) ; k++ ) for( s = 0 ; s < NST && !mc_nfail( ) ; s++ ) {
    if( !mc_thorough( ) && which && ( k + s )%3 ) continue ;
    const run *r = &R[ which ] ; mark( "f" ) ; cplx *U = fx_field( kindof( r ) , 21 ) ; put( "in" , F[k] , U ) ; snprintf( where , 300 , "%s, %s to %s" , r->name , fmt_name( F[k] ) , ST[s].n ) ; mc_progress( "%s" , where ) ;
    fmt_file d ; cplx *V = decode( "in" , F[k] , &d ) ; if( V ) { free( U ) ; U = V ; size_t i ; if( fmt_reunits( F[k] ) ) for( i = 0 ; i < fxV*ND ; i++ ) m_reunit( U + i*NN ) ; }
    single( r , "in" , F[k].head , U , s , "out" , F[k].dbl ? ( F[k].store == OUTPUT_SMALL ? 1e-6 : 0 ) : 3e-6 ) ; free( U ) ; }
}
/* output of one run is the input of the next; the second must see the field the first was to produce */
static void chain( const run *a , const run *b , int rot )
{
  int s ; for( s = 0 ; s < NST && !mc_nfail( ) ; s++ ) {
    const int s2 = ( s + rot )%NST ; if( !mc_thorough( ) && ( s + rot )%2 ) continue ; /* links with a phase need the whole matrix */
    if( a->mode == R_U1 && format( s2 , b ).store != OUTPUT_NCxNC ) continue ; if( a->mode == R_U1 && NC == 2 && format( s2 , b ).head == HIREP_HEADER ) continue ;
    mark( "c" ) ; cplx *U = fx_field( b->mode == R_FIX || kindof( a ) == F_WEAK || kindof( b ) == F_WEAK ? F_WEAK : F_MED , 31 ) ; put( "in" , NER , U ) ; snprintf( where , 300 , "%s (%s), first run of two" , a->name , ST[s].n ) ; mc_progress( "%s then %s" , a->name , b->name ) ;
    if( single( a , "in" , NERSC_HEADER , U , s , "mid" , 0 ) && !unlink( "in" ) ) {
      snprintf( where , 300 , "%s (%s), then %s (%s)" , a->name , ST[s].n , b->name , ST[s2].n ) ; single( b , "mid" , format( s , a ).head , U , s2 , b->mode == R_CUT ? NULL : "out" , ST[s].o == OUTPUT_SMALL ? 1e-6 : 0 ) ; }
    free( U ) ; }
}
static void generated( void )
{
  static const char *g[] = { "UNIT" , "RANDOM" , "INSTANTON" } ; int k , s , w ;
  for( k = 0 ; k < 3 && !mc_nfail( ) ; k++ ) for( w = 0 ; w < 2 ; w++ ) for( s = 0 ; s < NST && !mc_nfail( ) ; s++ ) {
    if( k == 2 && ( ND != 4 || !( NC == 2 || NC == 3 ) ) ) continue ;
    const run *r = &R[ w ? 3 : 0 ] ; mark( "g" ) ; cplx *U = fx_field( F_COLD , 1 ) ; struct site *lat = fx_lat( U ) ; int i ; direct( ) ; free_par_rng( ) ; mc_capture( ) ; int ok = GLU_SUCCESS ; if( k == 1 ) random_suNC( lat ) ; else if( k == 2 ) ok = instanton_config( lat ) ; free( mc_captured( &nsaid ) ) ; free( U ) ; U = fx_get( lat ) ; free_lat( lat ) ; free_par_rng( ) ; (void)ok ;
    snprintf( where , 300 , "%s of a generated %s field, %s" , r->name , g[k] , ST[s].n ) ; mc_progress( "%s" , where ) ; cplx *W = fx_dup( U ) ;
    model( r , W , UNIT_GAUGE ) ; options( r , NERSC_HEADER , s ) ; cli_set( "HEADER" , "%s" , g[k] ) ; mc_states( 1 ) ; for( i = 0 ; i < 2 && !mc_nfail( ) ; i++ ) {
      /* twice: the result depends on nothing but the input file */
      const char *o = i ? "two" : "one" ; const int st = cli_run( "nofile" , o , 100 ) ; fmt_file d ; if( st ) { mc_fail( "status" , "%s: exit status %d" , where , st ) ; break ; }
      cplx *V = decode( o , format( s , r ) , &d ) ; if( !V ) { mc_fail( "decode" , "%s: the output is no valid %s file: %s" , where , ST[s].n , d.err ) ; break ; }
      const double x = fx_dist( W , V ) ; if( small_tol( format( s , r ) , W ) < 1e-7 && !( x < r->tol + small_tol( format( s , r ) , W ) ) ) mc_fail( "field" , "%s: the output differs from what the operation gives by %.3g" , where , x ) ; free( V ) ; }
    if( !mc_nfail( ) ) onlyfiles( "one" , "two" ) ; mc_distinct( mc_hash( where , strlen( where ) , 0 ) ) ; free( U ) ; free( W ) ; }
}
/* a run that must fail: nothing may look like a result */
static void mustfail( const char *in , const char *out , const char *what ) { const int st = cli_run( in , out , 60 ) ; mc_states( 1 ) ; mc_distinct( mc_hash( what , strlen( what ) , st ) ) ; reported( st , what ) ; }
static void failures( const run *r )
{
  int s , k ; size_t n , i ; const char *o = r->mode == R_CUT ? NULL : "out" ; cplx *U = fx_field( kindof( r ) , 41 ) ; fmt_t F[ 40 ] ; const int nf = fmt_all( F ) ; snprintf( where , 300 , "%s" , r->name ) ; mc_progress( "%s" , where ) ;
  /* nothing to read */
  for( i = 0 ; i < sizeof( HD )/sizeof( HD[0] ) && !mc_nfail( ) ; i++ ) { if( HD[i].h == CERN_HEADER && NST < 8 ) continue ; mark( "n" ) ; options( r , HD[i].h , 0 ) ; mustfail( "missing" , o , "with no input" ) ; onlyfiles( NULL , NULL ) ; mark( "n" ) ; fmt_spit( "in" , (unsigned char*)"" , 0 ) ; mustfail( "in" , o , "with an empty input" ) ; onlyfiles( "in" , NULL ) ; mark( "n" ) ; mkdir( ".d" , 0700 ) ; mustfail( ".d" , o , "with a directory as input" ) ; onlyfiles( NULL , NULL ) ; }
  /* incomplete and damaged input */
  for( k = 0 ; k < nf && !mc_nfail( ) ; k++ ) {
    size_t off , len ; unsigned char *b = fmt_encode( F[k] , U , 7 , &n , &off , &len ) ; size_t cut[] = { off/2 , off , off + len/2 , off + len - 1 } ; if( !mc_thorough( ) && ( k + r->sub )%4 ) { free( b ) ; continue ; }
    for( i = 0 ; i < 4 && !mc_nfail( ) ; i++ ) { if( cut[i] == 0 && !i ) continue ; char w[ 80 ] ; snprintf( w , 80 , "with the first %zu of %zu bytes of %s" , cut[i] , n , fmt_name( F[k] ) ) ; mark( "t" ) ; fmt_spit( "in" , b , cut[i] ) ; options( r , F[k].head , 0 ) ; mustfail( "in" , o , w ) ; onlyfiles( "in" , NULL ) ; }
    free( b ) ;
  }
  /* a damaged payload that the format can tell */
  if( !mc_nfail( ) ) { size_t off , len ; unsigned char *b = fmt_encode( NER , U , 7 , &n , &off , &len ) ; b[ off + len/2 ] ^= 0x40 ; mark( "d" ) ; fmt_spit( "in" , b , n ) ; options( r , NERSC_HEADER , 0 ) ; mustfail( "in" , o , "with a damaged input" ) ; onlyfiles( "in" , NULL ) ; free( b ) ; }
  if( !o ) { free( U ) ; return ; }
  for( s = 0 ; s < NST && !mc_nfail( ) ; s++ ) {
    if( !mc_thorough( ) && ( s + r->sub )%3 ) continue ;
    /* a file of that name exists */
    mark( "e" ) ; put( "in" , NER , U ) ; fmt_spit( "out" , (unsigned char*)"precious" , 8 ) ; options( r , NERSC_HEADER , s ) ; mustfail( "in" , "out" , "over an existing file" ) ; size_t l ; char *c = cli_slurp( "out" , &l ) ; if( !c || l != 8 || memcmp( c , "precious" , 8 ) ) mc_fail( "overwritten" , "%s (%s): an existing file is overwritten" , where , ST[s].n ) ; free( c ) ; onlyfiles( "in" , "out" ) ; mustfail( "in" , "in" , "over its input" ) ; onlyfiles( "in" , "out" ) ;
    /* nowhere to write */
    mark( "u" ) ; put( "in" , NER , U ) ; mustfail( "in" , "no/such/directory/out" , "into a directory that does not exist" ) ; onlyfiles( "in" , NULL ) ;
    /* no room */
    if( mc_nfail( ) ) break ; mark( "r" ) ; put( "in" , NER , U ) ; options( r , NERSC_HEADER , s ) ; if( cli_run( "in" , "out" , 60 ) ) { mc_fail( "status" , "%s (%s) fails" , where , ST[s].n ) ; break ; }
    free( cli_slurp( "out" , &n ) ) ; unlink( "out" ) ; signal( SIGXFSZ , SIG_IGN ) ; const size_t lim[] = { 0 , 1 , 100 , n/4 , n/2 , n-9 , n-1 } ;
    for( i = 0 ; i < 7 && !mc_nfail( ) ; i++ ) { cli_fsize = lim[i] ; /* the program may print more than the limit */
      const int lo = open( ".out" , O_CREAT|O_TRUNC|O_WRONLY , 0600 ) ; close( lo ) ; const int st = cli_run( "in" , "out" , 60 ) ; cli_fsize = -1 ; mc_states( 1 ) ; if( st == 0 ) mc_fail( "success" , "%s (%s): reports success with room for %zu of %zu bytes" , where , ST[s].n , lim[i] , n ) ; else if( st < 0 ) mc_fail( "crash" , "%s (%s): dies of %d with room for %zu of %zu bytes" , where , ST[s].n , -st , lim[i] , n ) ; onlyfiles( "in" , NULL ) ; }
  }
  free( U ) ;
}
/* stopped at every file-system event: whatever has the name of the result is complete */
static void stopped( const run *r )
{
  int s ; long ev ; size_t n ; cplx *U = fx_field( kindof( r ) , 51 ) ;
  for( s = 0 ; s < NST && !mc_nfail( ) ; s++ ) for( ev = 1 ; ev < 60 && !mc_nfail( ) ; ev++ ) {
    char e[ 20 ] ; mark( "k" ) ; cplx *W = fx_dup( U ) ; put( "in" , NER , U ) ; snprintf( where , 300 , "%s (%s) stopped at event %ld" , r->name , ST[s].n , ev ) ; mc_progress( "%s" , where ) ; model( r , W , NERSC_HEADER ) ; options( r , NERSC_HEADER , s ) ; snprintf( e , 20 , "%ld" , ev ) ; setenv( "MCENV_KILLAT" , e , 1 ) ; const int st = cli_run( "in" , "out" , 60 ) ; unsetenv( "MCENV_KILLAT" ) ; mc_states( 1 ) ;
    char *c = cli_slurp( "out" , &n ) ; if( c ) { fmt_file d ; cplx *V = decode( "out" , format( s , r ) , &d ) ; if( !V ) mc_fail( "torn" , "%s: an incomplete result is left" , where ) ; else if( small_tol( format( s , r ) , W ) < 1e-7 && fx_dist( V , W ) > r->tol + small_tol( format( s , r ) , W ) ) mc_fail( "torn" , "%s: a wrong result is left" , where ) ; free( V ) ; }
    free( c ) ; free( W ) ; if( st == 0 ) break ; }
  free( U ) ;
}
/* gauge fixing that does not get there */
static void hopeless( void )
{
  static const char *gf[] = { "LANDAU" , "COULOMB" , "COULOMB_RESIDUAL" } ; static const int its[] = { 0 , 1 , 2 , 3 , 5 , 8 , 13 , 21 , 34 , 55 , 90 } ; int k , s , ii ; for( k = 0 ; k < 3 ; k++ ) for( ii = 0 ; ii < 11 ; ii++ ) for( s = 0 ; s < ( ii < 3 || mc_thorough( ) ? NST : 1 ) && !mc_nfail( ) ; s++ ) {
    const int it = its[ ii ] ;
    const run *r = R ; for( r = R ; strcmp( r->name , gf[k] ) ; r++ ) ; mark( "h" ) ; cplx *U = fx_field( F_HOT , 61 ) ; put( "in" , NER , U ) ; options( r , NERSC_HEADER , s ) ; cli_set( "MAX_ITERS" , "%d" , it ) ; snprintf( where , 300 , "%s with %d iterations (%s)" , gf[k] , it , ST[s].n ) ; mc_progress( "%s" , where ) ;
    const int st = cli_run( "in" , "out" , 60 ) ; mc_states( 1 ) ; if( st < 0 ) mc_fail( "crash" , "%s: dies (%d)" , where , st ) ; else if( st ) { if( !*cli_err ) mc_fail( "silent" , "%s: the failure is not explained" , where ) ; onlyfiles( "in" , NULL ) ; }
    else { /* what it calls a result must satisfy the gauge condition */ fmt_file d ; cplx *V = decode( "out" , format( s , r ) , &d ) ; if( !V ) mc_fail( "decode" , "%s: the output is not valid" , where ) ; else {
	double th = 0 ; size_t i ; int mu , e ; for( i = 0 ; i < fxV ; i++ ) { cplx D[ NN ] , h[ NN ] ; m_zero( D ) ; for( mu = 0 ; mu < ( k ? ND-1 : ND ) ; mu++ ) { m_herm_proj( h , L(V,i,mu) ) ; m_add( D , h ) ; m_herm_proj( h , L(V,fx_dn(i,mu),mu) ) ; m_axpy( D , -1 , h ) ; } for( e = 0 ; e < NN ; e++ ) th += creal( D[e]*conj( D[e] ) ) ; }
	if( th/fxV > 1e-8 ) mc_fail( "result" , "%s: reports success and writes a field that is not fixed (divergence %.2e)" , where , th/fxV ) ; free( V ) ; } }
    free( U ) ; }
}
/* measurements that were asked for nothing */
static void nothing( void )
{
  const run *r = R ; for( r = R ; strcmp( r->name , "STATIC_POTENTIAL" ) ; r++ ) ; mark( "z" ) ; cplx *U = fx_field( F_MED , 71 ) ; put( "in" , NER , U ) ; options( r , NERSC_HEADER , 0 ) ; cli_set( "MAX_T" , "0" ) ; snprintf( where , 300 , "static potential up to time 0" ) ;
  const int st = cli_run( "in" , NULL , 60 ) ; mc_states( 1 ) ; if( st == 0 ) mc_fail( "silent" , "%s: reports success" , where ) ; else if( st < 0 ) mc_fail( "crash" , "%s: dies (%d)" , where , st ) ; else { if( !*cli_err ) mc_fail( "silent" , "%s: the failure is not explained" , where ) ; onlyfiles( "in" , NULL ) ; } free( U ) ;
}
int main( int argc , char **argv )
{
  static const size_t sh[2][5] = { { 2 , 4 , 2 , ND > 4 ? 2 : 4 , 2 } , { 4 , 2 , 2 , 2 , 2 } } ; int i , j , k ;
  mc_init( argc , argv , "C21" , "c21_runs" ) ; mc_timeout( 400 ) ; mcomp_config( 1 , POL_RR ) ; mcenv_membytes = 1LL << 40 ; runs( ) ; attach_GLU( ) ;
#define CASE( body , ... ) if( mc_begin( __VA_ARGS__ ) ) { if( chdir( mc_scratch( ) ) ) abort( ) ; mcomp_config( 1 , POL_RR ) ; fx_dims( sh[ k ] ) ; body ; mc_end( ) ; }
  for( k = 0 ; k < 2 ; k++ ) for( i = 0 ; i < nr ; i++ ) CASE( every( R+i , k ) , "%s shape=%d" , R[i].name , k )
  for( k = 0 ; k < 2 ; k++ ) for( i = 0 ; i < nr ; i++ ) if( R[i].mode != R_CUT && ( i < 4 || ( mc_thorough( ) && R[i].tol < 1e-6 ) ) ) CASE( formats( i ) , "formats %s shape=%d" , R[i].name , k )
  k = 0 ; CASE( generated( ) , "generated fields" )
  for( i = 0 ; i < nr ; i++ ) for( j = 0 ; j < nr ; j++ ) if( R[i].mode != R_CUT && ( mc_thorough( ) || ( i + j )%2 == 0 || R[j].mode == R_CHECK ) && R[i].tol < 1e-6 && !( R[i].mode == R_U1 && R[j].mode != R_CHECK ) ) CASE( chain( R+i , R+j , i + j ) , "chain %s then %s" , R[i].name , R[j].name )
  for( i = 0 ; i < nr ; i++ ) CASE( failures( R+i ) , "failures %s" , R[i].name )
  for( i = 0 ; i < nr ; i++ ) if( R[i].mode != R_CUT && ( mc_thorough( ) || i == 0 || i == 3 || R[i].mode == R_U1 || R[i].sub == GLU_MAG_FIX ) ) CASE( stopped( R+i ) , "stopped %s" , R[i].name )
  CASE( hopeless( ) , "gauge fixing that does not converge" )
  CASE( nothing( ) , "measurements of nothing" )
  return mc_finish( ) ;
}
