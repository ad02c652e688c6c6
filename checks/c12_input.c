#pragma GCC diagnostic ignored "-Wmisleading-indentation"
/* the input file and the command line */
#define _GNU_SOURCE
#include "Mainfile.h"
#include "GLUlib_wrap.h"
#include "input_reader.h"
#include "input_help.h"
#include "mc.h"
#include "mcenv.h"
#include "mcomp.h"
#include "fx.h"
#include <unistd.h>
#include <dirent.h>
#include <sys/wait.h>
#include <fcntl.h>

/* what a run takes from its input file */
enum { R_MODE , R_SEED , R_CUT , R_MOMCUT , R_FIELD , R_MAXT , R_MAXMOM , R_ANGLE , R_CYL , R_GF , R_ACC , R_ITERS , R_TUNE , R_BETA , R_THERM , R_HBIT , R_NOR , R_SAVE , R_MEAS ,
       R_CONT , R_SM , R_DIR , R_SMIT , R_ALPHA , R_U1A = R_ALPHA + ND - 1 , R_U1C , R_U1M , R_RT , R_HEAD , R_STORE , R_FLOW , R_DIM , R_N = R_DIM + ND } ;
static const char *rname( int i )
{
  static const char *n[] = { "mode" , "seed" , "cut" , "momentum cut" , "field definition" , "max_t" , "max_mom" , "angle" , "cylinder width" , "gauge" , "accuracy" , "gauge-fixing iterations" , "gauge tuning" ,
			     "beta" , "thermalisation" , "heat-bath iterations" , "overrelaxations" , "save interval" , "measure interval" , "continuation" , "smearing" , "directions" , "smearing iterations" } ;
  static const char *m[] = { "U(1) coupling" , "U(1) charge" , "U(1) measurement" , "random transformation" , "header" , "storage" , "configuration number" } ;
  return i < R_ALPHA ? n[i] : i < R_U1A ? "smearing parameter" : i < R_DIM ? m[ i - R_U1A ] : "extent" ;
}
typedef struct { double v[ R_N ] ; char details[ 64 ] , where[ 256 ] ; } rec ;

/* the options: tag, base value, alternatives */
enum { K_WORD , K_INT , K_DBL , K_STR } ;
typedef struct { const char *tag ; int kind , r ; struct { const char *s ; double x ; } v[ 16 ] ; } opt ;
static opt O[] = {
  { "MODE" , K_WORD , R_MODE , { { "GAUGE_FIXING" , MODE_GF } , { "CUTTING" , MODE_CUTS } , { "SMEARING" , MODE_SMEARING } , { "SUNCxU1" , MODE_CROSS_U1 } , { "HEATBATH" , MODE_HEATBATH } , { "CHECK" , MODE_REWRITE } } } ,
  { "HEADER" , K_WORD , R_HEAD , { { "NERSC" , NERSC_HEADER } , { "HIREP" , HIREP_HEADER } , { "CERN" , CERN_HEADER } , { "MILC" , MILC_HEADER } , { "SCIDAC" , SCIDAC_HEADER } , { "LIME" , LIME_HEADER } ,
				   { "ILDG_SCIDAC" , ILDG_SCIDAC_HEADER } , { "ILDG_BQCD" , ILDG_BQCD_HEADER } , { "RANDOM" , RANDOM_CONFIG } , { "UNIT" , UNIT_GAUGE } , { "INSTANTON" , INSTANTON } , { "JLQCD" , JLQCD_HEADER } } } ,
  { "DIM_0" , K_INT , R_DIM , { { "4" , 4 } , { "16" , 16 } , { "1" , 1 } } } ,
  { "DIM_1" , K_INT , R_DIM+1 , { { "6" , 6 } , { "24" , 24 } } } ,
  { "DIM_2" , K_INT , R_DIM+2 , { { "10" , 10 } , { "48" , 48 } } } ,
#if ND > 3
  { "DIM_3" , K_INT , R_DIM+3 , { { "12" , 12 } , { "64" , 64 } } } ,
#endif
#if ND > 4
  { "DIM_4" , K_INT , R_DIM+4 , { { "2" , 2 } , { "14" , 14 } } } ,
#endif
  { "CONFNO" , K_INT , R_FLOW , { { "437" , 437 } , { "0" , 0 } , { "999999" , 999999 } } } ,
  { "RANDOM_TRANSFORM" , K_WORD , R_RT , { { "NO" , GLU_FALSE } , { "YES" , GLU_TRUE } } } ,
  { "SEED" , K_INT , R_SEED , { { "1234" , 1234 } , { "0" , 0 } , { "4294967295" , 4294967295. } } } ,
  { "GFTYPE" , K_WORD , R_GF , { { "LANDAU" , GLU_LANDAU_FIX } , { "COULOMB" , GLU_COULOMB_FIX } , { "COULOMB_RESIDUAL" , GLU_COULOMB_RESIDUAL_FIX } , { "AXIALT" , GLU_AXIALT_FIX } , { "MAG" , GLU_MAG_FIX } , { "NOTHING" , DEFAULT_NOFIX } } } ,
  { "GF_TUNE" , K_DBL , R_TUNE , { { "0.08" , 0.08 } , { "0.1" , 0.1 } } } ,
  { "ACCURACY" , K_DBL , R_ACC , { { "14" , 1e-14 } , { "9" , 1e-9 } , { "0" , 1 } } } ,
  { "MAX_ITERS" , K_INT , R_ITERS , { { "1000" , 1000 } , { "1" , 1 } , { "77" , 77 } } } ,
  { "CUTTYPE" , K_WORD , R_CUT , { { "EXCEPTIONAL" , EXCEPTIONAL } , { "NON_EXCEPTIONAL" , NONEXCEPTIONAL } , { "FIELDS" , FIELDS } , { "SMEARED_GLUONS" , SMEARED_GLUONS } , { "INSTANTANEOUS_GLUONS" , INSTANTANEOUS_GLUONS } ,
				    { "CONFIGSPACE_GLUONS" , CONFIGSPACE_GLUONS } , { "GLUON_PROPS" , GLUON_PROPS } , { "STATIC_POTENTIAL" , STATIC_POTENTIAL } , { "TOPOLOGICAL_CORRELATOR" , TOPOLOGICAL_CORRELATOR } ,
				    { "TOPOLOGICAL_SUSCEPTIBILITY" , TOPOLOGICAL_SUSCEPTIBILITY } , { "TOPOLOGICAL_MOMENTS" , TOPOLOGICAL_MOMENTS } , { "NOTHING" , GLU_NOCUTS } } } ,
  { "FIELD_DEFINITION" , K_WORD , R_FIELD , { { "LINEAR" , LINEAR_DEF } , { "LOGARITHMIC" , LOG_DEF } } } ,
  { "MOM_CUT" , K_WORD , R_MOMCUT , { { "SPHERICAL_CUT" , PSQ_CUT } , { "HYPERCUBIC_CUT" , HYPERCUBIC_CUT } , { "CYLINDER_CUT" , CYLINDER_CUT } , { "CONICAL_CUT" , CYLINDER_AND_CONICAL_CUT } } } ,
  { "MAX_T" , K_INT , R_MAXT , { { "7" , 7 } , { "1" , 1 } } } ,
  { "MAXMOM" , K_INT , R_MAXMOM , { { "80" , 80 } , { "3" , 3 } , { "0" , 0 } } } ,
  { "CYL_WIDTH" , K_DBL , R_CYL , { { "2.0" , 2 } , { "0.25" , 0.25 } } } ,
  { "ANGLE" , K_INT , R_ANGLE , { { "60" , 60 } , { "13" , 13 } } } ,
  { "OUTPUT" , K_STR , -1 , { { "./" , 0 } , { "/some/where/else/0123456789" , 0 } } } ,
  { "SMEARTYPE" , K_WORD , R_SM , { { "WFLOW_STOUT" , SM_WFLOW_STOUT } , { "WFLOW_LOG" , SM_WFLOW_LOG } , { "ADAPTWFLOW_STOUT" , SM_ADAPTWFLOW_STOUT } , { "ADAPTWFLOW_LOG" , SM_ADAPTWFLOW_LOG } , { "APE" , SM_APE } , { "STOUT" , SM_STOUT } ,
				     { "LOG" , SM_LOG } , { "HYP" , SM_HYP } , { "HEX" , SM_HEX } , { "HYL" , SM_HYL } , { "NOTHING" , SM_NOSMEARING } } } ,
  { "DIRECTION" , K_WORD , R_DIR , { { "ALL" , ALL_DIRECTIONS } , { "SPATIAL" , SPATIAL_LINKS_ONLY } } } ,
  { "SMITERS" , K_INT , R_SMIT , { { "100" , 100 } , { "2" , 2 } , { "0" , 0 } } } ,
  { "ALPHA1" , K_DBL , R_ALPHA , { { "0.02" , 0.02 } , { "0.75" , 0.75 } } } ,
  { "ALPHA2" , K_DBL , R_ALPHA+1 , { { "0.03" , 0.03 } , { "0.6" , 0.6 } } } ,
#if ND > 3
  { "ALPHA3" , K_DBL , R_ALPHA+2 , { { "0.04" , 0.04 } , { "0.3" , 0.3 } } } ,
#endif
#if ND > 4
  { "ALPHA4" , K_DBL , R_ALPHA+3 , { { "0.07" , 0.07 } , { "0.2" , 0.2 } } } ,
#endif
  { "U1_MEAS" , K_WORD , R_U1M , { { "U1_RECTANGLE" , U1_RECTANGLE } , { "U1_TOPOLOGICAL" , U1_TOPOLOGICAL } , { "U1_PLAQUETTE" , U1_PLAQUETTE } } } ,
  { "U1_ALPHA" , K_DBL , R_U1A , { { "0.07957753876221914" , 0.07957753876221914 } , { "0.5" , 0.5 } , { "1e-3" , 1e-3 } } } ,
  { "U1_CHARGE" , K_DBL , R_U1C , { { "-1.0" , -1 } , { "0.333" , 0.333 } } } ,
  { "CONFIG_INFO" , K_STR , -2 , { { "GLU_config" , 0 } , { "x" , 0 } } } ,
  { "STORAGE" , K_WORD , R_STORE , { { "NERSC_NCxNC" , OUTPUT_NCxNC } , { "NERSC_SMALL" , NC > 3 ? OUTPUT_NCxNC : OUTPUT_SMALL } , { "NERSC_GAUGE" , OUTPUT_GAUGE } , { "HIREP" , OUTPUT_HIREP } , { "MILC" , OUTPUT_MILC } , { "SCIDAC" , OUTPUT_SCIDAC } , { "ILDG" , OUTPUT_ILDG } , { "CERN" , OUTPUT_CERN } } } ,
  { "BETA" , K_DBL , R_BETA , { { "6.0" , 6 } , { "2.25" , 2.25 } } } ,
  { "ITERS" , K_INT , R_HBIT , { { "1500" , 1500 } , { "3" , 3 } } } ,
  { "MEASURE" , K_INT , R_MEAS , { { "5" , 5 } , { "1" , 1 } } } ,
  { "OVER_ITERS" , K_INT , R_NOR , { { "4" , 4 } , { "0" , 0 } , { "19" , 19 } } } ,
  { "SAVE" , K_INT , R_SAVE , { { "25" , 25 } , { "2" , 2 } } } ,
  { "THERM" , K_INT , R_THERM , { { "150" , 150 } , { "0" , 0 } , { "31" , 31 } } } ,
} ;
#define NO ( (int)( sizeof( O )/sizeof( *O ) ) )
static int nval( int k ) { int n = 0 ; while( n < 16 && O[k].v[n].s ) n++ ; return n ; }
static int find( const char *t ) { int k ; for( k = 0 ; k < NO ; k++ ) if( !strcmp( O[k].tag , t ) ) return k ; return -1 ; }

/* what the values pick[] must give */
static void expect( rec *e , const int *pick )
{
  int k ; memset( e , 0 , sizeof( *e ) ) ;
  for( k = 0 ; k < NO ; k++ ) if( O[k].r >= 0 ) e->v[ O[k].r ] = O[k].v[ pick[k] ].x ;
  strcpy( e->where , O[ find( "OUTPUT" ) ].v[ pick[ find( "OUTPUT" ) ] ].s ) ; strcpy( e->details , O[ find( "CONFIG_INFO" ) ].v[ pick[ find( "CONFIG_INFO" ) ] ].s ) ;
  /* a field that is not special unitary can only be stored in full */
  if( e->v[R_MODE] == MODE_CROSS_U1 && ( e->v[R_STORE] == OUTPUT_SMALL || e->v[R_STORE] == OUTPUT_GAUGE || ( NC == 2 && e->v[R_STORE] == OUTPUT_HIREP ) ) ) e->v[R_STORE] = OUTPUT_NCxNC ;
  /* new fields start a Markov chain, existing ones continue theirs */
  if( e->v[R_HEAD] == UNIT_GAUGE || e->v[R_HEAD] == RANDOM_CONFIG ) { e->v[R_CONT] = GLU_FALSE ; e->v[R_FLOW] = 0 ; }
  else { e->v[R_CONT] = GLU_TRUE ; e->v[R_THERM] = 0 ; }
  if( e->v[R_CUT] == GLU_NOCUTS ) { const int u[] = { R_MOMCUT , R_FIELD , R_MAXT , R_MAXMOM , R_ANGLE , R_CYL } ; int i ; for( i = 0 ; i < 6 ; i++ ) e->v[ u[i] ] = NAN ; e->where[0] = 0 ; }
  if( e->v[R_HEAD] != UNIT_GAUGE && e->v[R_HEAD] != RANDOM_CONFIG && e->v[R_HEAD] != INSTANTON && e->v[R_HEAD] != JLQCD_HEADER ) for( k = 0 ; k < ND ; k++ ) e->v[ R_DIM+k ] = NAN ;
}
static void record( rec *r , const struct infile_data *IN )
{
  int k ; memset( r , 0 , sizeof( *r ) ) ; double *v = r->v ;
  v[R_MODE] = IN->mode ; v[R_SEED] = Latt.Seed[0] ; v[R_CUT] = IN->CUTINFO.dir ; v[R_MOMCUT] = IN->CUTINFO.type ; v[R_FIELD] = IN->CUTINFO.definition ; v[R_MAXT] = IN->CUTINFO.max_t ; v[R_MAXMOM] = IN->CUTINFO.max_mom ;
  v[R_ANGLE] = IN->CUTINFO.angle ; v[R_CYL] = IN->CUTINFO.cyl_width ; v[R_GF] = IN->GFINFO.type ; v[R_ACC] = IN->GFINFO.accuracy ; v[R_ITERS] = IN->GFINFO.max_iters ; v[R_TUNE] = Latt.gf_alpha ; v[R_BETA] = IN->HBINFO.beta ;
  v[R_THERM] = IN->HBINFO.therm ; v[R_HBIT] = IN->HBINFO.iterations ; v[R_NOR] = IN->HBINFO.Nor ; v[R_SAVE] = IN->HBINFO.Nsave ; v[R_MEAS] = IN->HBINFO.Nmeasure ; v[R_CONT] = IN->HBINFO.continuation ; v[R_SM] = IN->SMINFO.type ;
  v[R_DIR] = IN->SMINFO.dir ; v[R_SMIT] = IN->SMINFO.smiters ; for( k = 0 ; k < ND-1 ; k++ ) v[R_ALPHA+k] = Latt.sm_alpha[k] ; v[R_U1A] = IN->U1INFO.alpha ; v[R_U1C] = IN->U1INFO.charge ; v[R_U1M] = IN->U1INFO.meas ;
  v[R_RT] = IN->rtrans ; v[R_HEAD] = Latt.head == IN->head ? (double)IN->head : -1 ; v[R_STORE] = IN->storage ; v[R_FLOW] = Latt.flow ; for( k = 0 ; k < ND ; k++ ) v[R_DIM+k] = Latt.dims[k] ;
  memcpy( r->details , IN->output_details , 64 ) ; memcpy( r->where , IN->CUTINFO.where , 256 ) ;
}
static long nparse ;
static int parse_text( const char *text , rec *r )
{
  FILE *f = fopen( "in" , "w" ) ; fputs( text , f ) ; fclose( f ) ;
  struct infile_data IN ; memset( &IN , 0x5A , sizeof( IN ) ) ; int k ;
  Latt.Seed[0] = 99 ; Latt.flow = 5555 ; Latt.gf_alpha = -7 ; Latt.head = UNSUPPORTED ; for( k = 0 ; k < ND ; k++ ) Latt.dims[k] = 77 , Latt.sm_alpha[k] = -7 ;
  nparse++ ; mc_trans( 1 ) ; const int s = get_input_data( &IN , "in" ) ; record( r , &IN ) ; return s ;
}
/* the text of an input file with options in the given order */
static char *text( const int *pick , const int *order , int n )
{
  static char b[ 16384 ] ; int i , o = 0 ; for( i = 0 ; i < n ; i++ ) { const int k = order ? order[i] : i ; o += sprintf( b+o , "%s = %s\n" , O[k].tag , O[k].v[ pick[k] ].s ) ; } return b ;
}
static int compare( const rec *g , const rec *e , const char *what )
{
  int i ; for( i = 0 ; i < R_N ; i++ ) if( !isnan( e->v[i] ) && fabs( g->v[i] - e->v[i] ) > 1e-14*fabs( e->v[i] ) ) { mc_fail( "value" , "%s: the %s is %.17g, the file says %.17g" , what , rname( i ) , g->v[i] , e->v[i] ) ; return 1 ; }
  if( e->where[0] && strcmp( g->where , e->where ) ) { mc_fail( "value" , "%s: the output directory is '%.80s', the file says '%s'" , what , g->where , e->where ) ; return 1 ; }
  if( strcmp( g->details , e->details ) ) { mc_fail( "value" , "%s: the configuration information is '%.63s', the file says '%s'" , what , g->details , e->details ) ; return 1 ; }
  return 0 ;
}
static int good( const char *t , const int *pick , const char *what )
{
  rec g , e ; mc_progress( "%s" , what ) ; expect( &e , pick ) ;
  if( parse_text( t , &g ) != GLU_SUCCESS ) { mc_fail( "refused" , "%s: a well-formed input file is refused" , what ) ; return 1 ; }
  mc_distinct( mc_hash( &g , sizeof( g ) , 7 ) ) ; return compare( &g , &e , what ) ;
}
static int bad( const char *t , const char *what )
{ rec g ; mc_progress( "%s" , what ) ; if( parse_text( t , &g ) == GLU_SUCCESS ) { mc_fail( "accepted" , "%s is accepted" , what ) ; return 1 ; } return 0 ; }
static void quiet( void ) { int n = open( "/dev/null" , O_WRONLY ) ; dup2( n , 1 ) ; dup2( n , 2 ) ; close( n ) ; }
/* three assignments that differ in every option */
static void assign( int *pick , int w ) { int k ; for( k = 0 ; k < NO ; k++ ) pick[k] = w % nval( k ) ; if( w ) pick[ find( "HEADER" ) ] = w == 1 ? 9 : 8 ; }

static void values( void )
{
  int pick[ NO ] , k , j , w ; char what[ 200 ] ;
  for( w = 0 ; w < 3 ; w++ ) for( k = 0 ; k < NO ; k++ ) for( j = 0 ; j < nval( k ) ; j++ ) {
    assign( pick , w ) ; pick[k] = j ; snprintf( what , sizeof( what ) , "%s = %s (assignment %d)" , O[k].tag , O[k].v[j].s , w ) ; if( good( text( pick , NULL , NO ) , pick , what ) ) return ; }
  mc_traces( nparse ) ;
}
static void pairs( int a )
{
  int pick[ NO ] , b , i , j ; char what[ 200 ] ;
  for( b = a+1 ; b < NO ; b++ ) for( i = 0 ; i < nval( a ) ; i++ ) for( j = 0 ; j < nval( b ) ; j++ ) {
    assign( pick , 0 ) ; pick[a] = i ; pick[b] = j ; snprintf( what , sizeof( what ) , "%s = %s with %s = %s" , O[a].tag , O[a].v[i].s , O[b].tag , O[b].v[j].s ) ; if( good( text( pick , NULL , NO ) , pick , what ) ) return ; }
  mc_traces( nparse ) ;
}
static void triples( int a )
{
  int pick[ NO ] , b , c , i , j , k ; char what[ 200 ] ;
  for( b = a+1 ; b < NO ; b++ ) for( c = b+1 ; c < NO ; c++ ) for( i = 0 ; i < nval( a ) ; i++ ) for( j = 0 ; j < nval( b ) ; j++ ) for( k = 0 ; k < nval( c ) ; k++ ) {
    int w ; for( w = mc_thorough( ) ? 0 : 1 ; w < ( mc_thorough( ) ? 3 : 2 ) ; w++ ) { assign( pick , w ) ; pick[a] = i ; pick[b] = j ; pick[c] = k ; snprintf( what , sizeof( what ) , "%s = %s with %s = %s and %s = %s" , O[a].tag , O[a].v[i].s , O[b].tag , O[b].v[j].s , O[c].tag , O[c].v[k].s ) ; if( good( text( pick , NULL , NO ) , pick , what ) ) return ; } }
  mc_traces( nparse ) ;
}
static void orders( int w )
{
  int pick[ NO ] , ord[ NO ] , i , j , k ; char what[ 200 ] ; assign( pick , w ) ;
  /* each option moved to each place, forwards and backwards; each two options exchanged; rotations */
  for( k = 0 ; k < 2 ; k++ ) for( i = 0 ; i < NO ; i++ ) for( j = 0 ; j < NO ; j++ ) {
    int n = 0 , s ; for( s = 0 ; s < NO ; s++ ) if( s != i ) { if( n == j ) ord[n++] = i ; ord[n++] = s ; } if( n < NO ) ord[n++] = i ;
    if( k ) for( s = 0 ; s < NO/2 ; s++ ) { const int t = ord[s] ; ord[s] = ord[NO-1-s] ; ord[NO-1-s] = t ; }
    snprintf( what , sizeof( what ) , "%s moved to line %d%s (assignment %d)" , O[i].tag , k ? NO-j : j+1 , k ? ", order reversed" : "" , w ) ; if( good( text( pick , ord , NO ) , pick , what ) ) return ; }
  for( i = 0 ; i < NO ; i++ ) for( j = i+1 ; j < NO ; j++ ) {
    for( k = 0 ; k < NO ; k++ ) ord[k] = k ; ord[i] = j ; ord[j] = i ;
    snprintf( what , sizeof( what ) , "%s and %s exchanged (assignment %d)" , O[i].tag , O[j].tag , w ) ; if( good( text( pick , ord , NO ) , pick , what ) ) return ; }
  for( i = 1 ; i < NO ; i++ ) for( j = 0 ; j < NO ; j++ ) { /* rotations, and every stride that is a permutation */
    int g = i , h = NO ; while( h ) { const int t = g%h ; g = h ; h = t ; } if( g != 1 && j ) continue ;
    for( k = 0 ; k < NO ; k++ ) ord[k] = g == 1 ? ( j + k*i )%NO : ( k + i )%NO ;
    snprintf( what , sizeof( what ) , "lines in steps of %d from %d (assignment %d)" , i , j , w ) ; if( good( text( pick , ord , NO ) , pick , what ) ) return ; }
  mc_traces( nparse ) ;
}
static void layouts( void )
{
  int pick[ NO ] , k , w , m ; static const char *before[] = { "" , " " , "    " , "\t" , "\n\n" } , *after[] = { "\n" , "  \n" , "\t\n" , "\n \n" , "\r\n" } , *mid[] = { " = " , "  =  " , "\t=\t" } ; char what[ 200 ] ; static char b[ 32768 ] ;
  for( w = 0 ; w < 3 ; w++ ) { assign( pick , w ) ;
    for( m = 0 ; m < 75 ; m++ ) { int o = 0 ; for( k = 0 ; k < NO ; k++ ) o += sprintf( b+o , "%s%s%s%s%s" , before[ m%5 ] , O[k].tag , mid[ m/25 ] , O[k].v[ pick[k] ].s , k == NO-1 && m%2 ? "" : after[ m/5%5 ] ) ;
      snprintf( what , sizeof( what ) , "white space variant %d (assignment %d)" , m , w ) ; if( good( b , pick , what ) ) return ; }
    /* an unknown extra line anywhere */
    for( m = 0 ; m <= NO ; m++ ) { int o = 0 ; for( k = 0 ; k <= NO ; k++ ) { if( k == m ) o += sprintf( b+o , "COMMENT = hello\n" ) ; if( k < NO ) o += sprintf( b+o , "%s = %s\n" , O[k].tag , O[k].v[ pick[k] ].s ) ; }
      snprintf( what , sizeof( what ) , "an unknown option at line %d" , m ) ; if( good( b , pick , what ) ) return ; } }
  mc_traces( nparse ) ;
}
static char *without( const int *pick , int a , int b ) { static int o[ 64 ] ; int n = 0 , k ; for( k = 0 ; k < NO ; k++ ) if( k != a && k != b ) o[n++] = k ; return text( pick , o , n ) ; }
/* what may be missing: the extents when they come with the file, the configuration number, which has a default */
static int needed( int k , const int *pick )
{
  const int h = O[ find( "HEADER" ) ].v[ pick[ find( "HEADER" ) ] ].x , c = O[ find( "CUTTYPE" ) ].v[ pick[ find( "CUTTYPE" ) ] ].x ;
  if( !strncmp( O[k].tag , "DIM_" , 4 ) ) return h == UNIT_GAUGE || h == RANDOM_CONFIG || h == INSTANTON || h == JLQCD_HEADER ;
  if( !strcmp( O[k].tag , "CONFNO" ) ) return 0 ;
  if( c == GLU_NOCUTS && ( O[k].r == R_MOMCUT || O[k].r == R_FIELD || O[k].r == R_MAXT || O[k].r == R_MAXMOM || O[k].r == R_ANGLE || O[k].r == R_CYL || O[k].r == -1 ) ) return 0 ;
  return 1 ;
}
static void missing( int a )
{
  int pick[ NO ] , b , h , w ; char what[ 200 ] ;
  for( w = 0 ; w < 2 ; w++ ) for( h = 0 ; h < nval( 1 ) ; h++ ) { assign( pick , w ) ; pick[1] = h ; 
    if( needed( a , pick ) ) { snprintf( what , sizeof( what ) , "an input file without %s (HEADER = %s)" , O[a].tag , O[1].v[h].s ) ; if( bad( without( pick , a , -1 ) , what ) ) return ; } }
  for( b = a+1 ; b < NO ; b++ ) { assign( pick , 1 ) ; if( needed( a , pick ) || needed( b , pick ) ) { snprintf( what , sizeof( what ) , "an input file without %s and %s" , O[a].tag , O[b].tag ) ; if( bad( without( pick , a , b ) , what ) ) return ; } }
  mc_traces( nparse ) ;
}
static char *with( const int *pick , int a , const char *v )
{ static char b[ 16384 ] ; int k , o = 0 ; for( k = 0 ; k < NO ; k++ ) o += sprintf( b+o , "%s = %s\n" , O[k].tag , k == a ? v : O[k].v[ pick[k] ].s ) ; return b ; }
/* numbers that are none */
static void malformed( int a )
{
  static const char *bi[] = { "abc" , "-1" , "-999" , "x5" , "12abc" , "1.5" , "99999999999999999999999" , "-" , "=" , NULL } , *bd[] = { "abc" , "nan" , "inf" , "-inf" , "1.5.2" , "1e999" , "0.1x" , "-" , NULL } ;
  const char **p ; int pick[ NO ] , w ; char what[ 200 ] ;
  for( w = 0 ; w < 2 ; w++ ) for( p = O[a].kind == K_INT ? bi : bd ; *p ; p++ ) { assign( pick , 1 ) ; pick[1] = 8 + w ; if( !strcmp( O[a].tag , "CONFNO" ) && w ) continue ;
    snprintf( what , sizeof( what ) , "the value '%s' for %s" , *p , O[a].tag ) ; if( bad( with( pick , a , *p ) , what ) ) return ; }
  if( !strcmp( O[a].tag , "SEED" ) && bad( with( pick , a , "4294967296" ) , "a SEED that is too large" ) ) return ;
  mc_traces( nparse ) ;
}
/* words nobody knows: refused, or what is documented for all else */
static void unknown( int a )
{
  static const char *u[] = { "ZZZ" , "" , "0" , NULL } ; const char **p ; int pick[ NO ] , j ; char what[ 200 ] , *v , buf[ 100 ] ; rec g ;
  const double dflt = O[a].r == R_MODE ? MODE_REWRITE : O[a].r == R_GF ? DEFAULT_NOFIX : O[a].r == R_CUT ? GLU_NOCUTS : O[a].r == R_FIELD ? LINEAR_DEF : O[a].r == R_MOMCUT ? PSQ_CUT : O[a].r == R_SM ? SM_NOSMEARING :
    O[a].r == R_DIR ? ALL_DIRECTIONS : O[a].r == R_U1M ? U1_PLAQUETTE : O[a].r == R_RT ? GLU_FALSE : O[a].r == R_STORE ? OUTPUT_NCxNC : NAN ;
  for( j = -1 ; j < nval( a ) ; j++ ) for( p = u ; *p ; p++ ) {
    assign( pick , 1 ) ; if( j < 0 ) { if( !**p ) continue ; v = (char*)*p ; }
    else { /* shortened, extended and lower-case keywords are other words */
      strcpy( buf , O[a].v[j].s ) ; if( p == u ) strcat( buf , "X" ) ; else if( p == u+1 ) buf[ strlen( buf ) - 1 ] = 0 ; else buf[0] |= 0x20 ; v = buf ;
      int k , is = 0 ; for( k = 0 ; k < nval( a ) ; k++ ) is |= !strcmp( O[a].v[k].s , v ) ; if( is || !strcmp( v , "LOG" ) ) continue ; }
    snprintf( what , sizeof( what ) , "%s = %s" , O[a].tag , v ) ; mc_progress( "%s" , what ) ; const int s = parse_text( with( pick , a , v ) , &g ) ;
    if( s != GLU_SUCCESS ) continue ;
    if( isnan( dflt ) ) { mc_fail( "accepted" , "%s is accepted" , what ) ; return ; }
    if( g.v[ O[a].r ] != dflt ) { mc_fail( "unknown" , "%s selects %s %g, the documented behaviour for unknown words is %g" , what , rname( O[a].r ) , g.v[ O[a].r ] , dflt ) ; return ; }
  }
  mc_traces( nparse ) ;
}
/* long words and long files: used as given, or refused */
static void sizes( int kind )
{
  int pick[ NO ] , n , k ; char what[ 200 ] , w[ 600 ] ; static char b[ 65536 ] ; rec g , e ; assign( pick , 0 ) ;
  static const int len[] = { 30 , 62 , 63 , 64 , 65 , 100 , 127 , 128 , 200 , 255 , 256 , 300 , 500 } ;
  for( n = 0 ; n < 13 ; n++ ) {
    memset( w , 'a' , len[n] ) ; w[ len[n] ] = 0 ; w[0] = '/' ; int s ;
    if( kind < 2 ) { const char *t = kind ? "CONFIG_INFO" : "OUTPUT" ; snprintf( what , sizeof( what ) , "%d letters for %s" , len[n] , t ) ; mc_progress( "%s" , what ) ; s = parse_text( with( pick , find( t ) , w ) , &g ) ; expect( &e , pick ) ;
      if( s == GLU_SUCCESS ) { const char *got = kind ? g.details : g.where ; if( strncmp( got , w , kind ? 64 : 256 ) || (int)strlen( w ) > ( kind ? 63 : 255 ) ) { mc_fail( "long" , "%s are not used as given" , what ) ; return ; }
	strcpy( kind ? e.details : e.where , w ) ; if( compare( &g , &e , what ) ) return ; }
      else if( len[n] < 60 ) { mc_fail( "refused" , "%s are refused" , what ) ; return ; } }
    else if( kind == 2 ) { int o = sprintf( b , "%s = value\n" , w ) ; strcpy( b+o , text( pick , NULL , NO ) ) ; snprintf( what , sizeof( what ) , "an unknown option with a name of %d letters" , len[n] ) ; mc_progress( "%s" , what ) ; s = parse_text( b , &g ) ; expect( &e , pick ) ; if( s == GLU_SUCCESS && compare( &g , &e , what ) ) return ; }
    else { int o = 0 ; for( k = 0 ; k < len[n] ; k++ ) o += sprintf( b+o , "EXTRA%d = value\n" , k ) ; strcpy( b+o , text( pick , NULL , NO ) ) ; snprintf( what , sizeof( what ) , "%d unknown options before the others" , len[n] ) ; mc_progress( "%s" , what ) ; s = parse_text( b , &g ) ; expect( &e , pick ) ; if( s == GLU_SUCCESS && compare( &g , &e , what ) ) return ; }
  }
  mc_traces( nparse ) ;
}
/* files that are no input files */
static void junk( void )
{
  static const char *j[] = { "" , "\n" , "=" , "= = =\n" , "MODE" , "MODE =" , "MODE = " , "HEADER = NERSC\n" , "MODE=CUTTING\n" , NULL } ; const char **p ; for( p = j ; *p ; p++ ) if( bad( *p , "a file that is no input file" ) ) return ;
  rec g ; struct infile_data IN ; memset( &IN , 0x5A , sizeof( IN ) ) ; if( get_input_data( &IN , "not-there" ) == GLU_SUCCESS ) { mc_fail( "accepted" , "a missing input file is accepted" ) ; return ; }
  /* every prefix of a complete file is missing something */
  int pick[ NO ] ; size_t k ; assign( pick , 1 ) ; char *t = strdup( text( pick , NULL , NO ) ) , *last = strstr( t , O[NO-1].tag ) ; while( strstr( last + 1 , "\nTHERM" ) ) last = strstr( last + 1 , "\nTHERM" ) ;
  const size_t stop = (size_t)( strstr( t , "\nTHERM = " ) - t ) + 10 ; char *c = strdup( t ) ;
  for( k = 0 ; k < stop ; k++ ) { memcpy( c , t , k ) ; c[k] = 0 ; if( bad( c , "a truncated input file" ) ) return ; }
  (void)g ; mc_traces( nparse ) ;
}
/* what the program prints */
static char *help( const char *a ) { size_t n ; mc_capture( ) ; GLU_helps_those_who_help_themselves( a ) ; return mc_captured( &n ) ; }
static int words( char *from , char *to , char w[][ 64 ] )
{ int n = 0 ; char save = *to ; *to = 0 ; char *s = strdup( from ) , *q , *p ; *to = save ; for( p = strtok_r( s , " ,\n" , &q ) ; p && n < 64 ; p = strtok_r( NULL , " ,\n" , &q ) ) if( strcmp( p , "or" ) && strcmp( p , "and" ) ) snprintf( w[n++] , 64 , "%s" , p ) ; free( s ) ; return n ; }
static void examples( void )
{
  char w[ 64 ][ 64 ] , a[ 100 ] ; int i , n , src ; size_t len ; rec g ;
  for( src = 0 ; src < 2 ; src++ ) {
    char *u ; if( src ) u = help( "--help=what" ) ; else { mc_capture( ) ; GLUsage( ) ; u = mc_captured( &len ) ; }
    char *s = strstr( u , "--autoin={options}" ) , *e ; s = s ? strstr( s , "can be " ) : NULL ; e = s ? strstr( s , "\n\n" ) : NULL ; if( !e ) { mc_fail( "usage" , "the usage text does not list the example inputs" ) ; return ; }
    n = words( s + 7 , e , w ) ; if( n < 5 ) { mc_fail( "usage" , "the usage text lists only %d example inputs" , n ) ; return ; }
    for( i = 0 ; i < n ; i++ ) {
      snprintf( a , sizeof( a ) , "--autoin=%s" , w[i] ) ; char *t = help( a ) ; if( strstr( t , "Unrecognised" ) ) { mc_fail( "example" , "the advertised %s prints no example" , a ) ; return ; }
      quiet( ) ; mc_progress( "the example printed by %s" , a ) ; if( parse_text( t , &g ) != GLU_SUCCESS ) { mc_fail( "example" , "the example printed by %s is refused" , a ) ; return ; }
      int m = -1 , gf = -1 , c = -1 , sm = -1 ; if( !strcmp( w[i] , "LANDAU" ) ) m = MODE_GF , gf = GLU_LANDAU_FIX ; if( !strcmp( w[i] , "COULOMB" ) ) m = MODE_GF , gf = GLU_COULOMB_FIX ; if( !strcmp( w[i] , "HEATBATH" ) ) m = MODE_HEATBATH ;
      if( !strcmp( w[i] , "STATIC_POTENTIAL" ) ) m = MODE_CUTS , c = STATIC_POTENTIAL ; if( !strcmp( w[i] , "TOPOLOGICAL_SUSCEPTIBILITY" ) ) m = MODE_CUTS , c = TOPOLOGICAL_SUSCEPTIBILITY ; if( !strcmp( w[i] , "SUNCxU1" ) ) m = MODE_CROSS_U1 ; if( !strcmp( w[i] , "WFLOW" ) ) m = MODE_SMEARING , sm = SM_WFLOW_STOUT ;
      if( ( m >= 0 && g.v[R_MODE] != m ) || ( gf >= 0 && g.v[R_GF] != gf ) || ( c >= 0 && g.v[R_CUT] != c ) || ( sm >= 0 && g.v[R_SM] != sm ) ) { mc_fail( "example" , "the example printed by %s does something else" , a ) ; return ; }
      /* each value of the example is used */
      int pick[ NO ] , k ; assign( pick , 0 ) ; char *ln = t ; static opt save[ sizeof( O )/sizeof( *O ) ] ; memcpy( save , O , sizeof( O ) ) ; rec e2 ; 
      while( *ln ) { char tag[ 64 ] , val[ 64 ] ; if( sscanf( ln , "%63s = %63s" , tag , val ) == 2 && ( k = find( tag ) ) >= 0 ) { int j , f = 0 ; for( j = 0 ; j < nval( k ) ; j++ ) if( !strcmp( O[k].v[j].s , val ) ) pick[k] = j , f = 1 ; if( !f && O[k].kind != K_WORD ) { O[k].v[0].s = strdup( val ) ; O[k].v[0].x = atof( val ) ; if( O[k].r == R_ACC ) O[k].v[0].x = pow( 10 , -O[k].v[0].x ) ; pick[k] = 0 ; } } ln = strchr( ln , '\n' ) ; if( !ln ) break ; ln++ ; }
      expect( &e2 , pick ) ; if( compare( &g , &e2 , a ) ) return ; memcpy( O , save , sizeof( O ) ) ; free( t ) ;
    } free( u ) ; }
  mc_traces( nparse ) ;
}
static void helps( void )
{
  char w[ 64 ][ 64 ] , a[ 100 ] ; int i , n , pick[ NO ] ; rec g , z ; char *u = help( "--help=what" ) , *s = strstr( u , "options are:" ) , *e = s ? strstr( s , "*caution*" ) : NULL ; if( !e ) { mc_fail( "usage" , "the help does not list its options" ) ; return ; }
  n = words( s + 12 , e , w ) ; if( n < 20 ) { mc_fail( "usage" , "the help lists only %d options" , n ) ; return ; }
  for( i = 0 ; i < n ; i++ ) {
    snprintf( a , sizeof( a ) , "--help=%s" , w[i] ) ; char *t = help( a ) , *ln , *next ; mc_trans( 1 ) ; if( strstr( t , "Unrecognised" ) ) { mc_fail( "help" , "there is no help on the advertised option %s" , w[i] ) ; return ; }
    char *eq = strstr( t , " = " ) ; if( !eq ) { mc_fail( "help" , "the help on %s does not say how to set it" , w[i] ) ; return ; }
    char tag[ 64 ] ; snprintf( tag , sizeof( tag ) , "%.*s" , (int)( eq - t ) , t ) ; char *d = strstr( tag , "%d" ) ; if( d ) strcpy( d , strncmp( tag , "DIM" , 3 ) ? "1" : "0" ) ;
    const int k = find( tag ) ; if( k < 0 ) { mc_fail( "help" , "the help on %s describes the option '%s', which has no effect" , w[i] , tag ) ; return ; }
    if( O[k].kind != K_WORD ) { free( t ) ; continue ; }
    /* each word it lists selects something of its own */
    quiet( ) ; assign( pick , 1 ) ; double got[ 32 ] ; char nm[ 32 ][ 64 ] ; int m = 0 , j ; const int zs = parse_text( with( pick , k , "ZZZ" ) , &z ) ;
    for( ln = t ; ln && *ln ; ln = next ) { next = strchr( ln , '\n' ) ; if( next ) *next++ = 0 ; char v[ 64 ] , dash[ 8 ] ; char *q = strstr( ln , "= " ) ; if( !q || sscanf( q , "= %63s %7s" , v , dash ) != 2 || strcmp( dash , "-" ) || v[0] == '{' || v[0] == '%' ) continue ;
      char *p0 = ln ; while( *p0 == ' ' ) p0++ ; if( p0 != q && strncmp( p0 , tag , strlen( tag ) ) ) continue ;
      mc_progress( "%s = %s" , tag , v ) ; if( parse_text( with( pick , k , v ) , &g ) != GLU_SUCCESS ) { mc_fail( "documented" , "the documented %s = %s is refused" , tag , v ) ; return ; }
      int dflt = !strcmp( v , "U1_PLAQUETTE" ) || !strcmp( v , "NERSC_NCxNC" ) || !strcmp( v , "SPHERICAL_CUT" ) || !strcmp( v , "LINEAR" ) || !strcmp( v , "ALL" ) || !strcmp( v , "NO" ) ;
      if( zs == GLU_SUCCESS && !dflt && g.v[ O[k].r ] == z.v[ O[k].r ] ) { mc_fail( "documented" , "the documented %s = %s is treated as an unknown word" , tag , v ) ; return ; }
      for( j = 0 ; j < m ; j++ ) if( got[j] == g.v[ O[k].r ] && !( NC > 3 && O[k].r == R_STORE ) ) { mc_fail( "documented" , "%s = %s and %s select the same" , tag , nm[j] , v ) ; return ; }
      got[m] = g.v[ O[k].r ] ; strcpy( nm[m++] , v ) ; }
    if( !m ) { mc_fail( "help" , "the help on %s lists no words" , w[i] ) ; return ; }
    free( t ) ; }
  mc_traces( nparse ) ;
}
/* ---------------- the program */
static int run( char *const *arg , int limit , char **out , char **err )
{
  fflush( stdout ) ; const pid_t p = fork( ) ;
  if( !p ) { int o = open( ".out" , O_CREAT|O_TRUNC|O_WRONLY , 0600 ) , e = open( ".err" , O_CREAT|O_TRUNC|O_WRONLY , 0600 ) ; dup2( o , 1 ) ; dup2( e , 2 ) ; alarm( limit ) ; execv( getenv( "MC_CLI" ) , arg ) ; _exit( 127 ) ; }
  int st ; waitpid( p , &st , 0 ) ; mc_trans( 1 ) ; char **w[2] = { out , err } ; int i ; for( i = 0 ; i < 2 ; i++ ) { FILE *f = fopen( i ? ".err" : ".out" , "r" ) ; fseek( f , 0 , SEEK_END ) ; long n = ftell( f ) ; rewind( f ) ; *w[i] = calloc( n+1 , 1 ) ; if( fread( *w[i] , 1 , n , f ) ) {} fclose( f ) ; }
  return WIFSIGNALED( st ) ? -WTERMSIG( st ) : WEXITSTATUS( st ) ;
}
static int nfiles( void ) { int n = 0 ; DIR *d = opendir( "." ) ; struct dirent *e ; while( ( e = readdir( d ) ) ) if( e->d_name[0] != '.' && strcmp( e->d_name , "in" ) && strcmp( e->d_name , "conf" ) ) n++ ; closedir( d ) ; return n ; }
static void put( const char *t ) { FILE *f = fopen( "in" , "w" ) ; fputs( t , f ) ; fclose( f ) ; }
static void small( int *pick ) { int k ; assign( pick , 0 ) ; pick[1] = 9 ; pick[0] = 5 ; for( k = 0 ; k < ND ; k++ ) O[2+k].v[0].s = "2" ; }
static void cli_missing( int a )
{
  int pick[ NO ] ; char *o , *e ; small( pick ) ; char *arg[] = { "GLU" , "-i" , "in" , "-c" , "conf" , "-o" , "res" , NULL } ; pick[1] = 8 ; if( !needed( a , pick ) ) return ; pick[1] = 9 ;
  put( without( pick , a , -1 ) ) ; const int s = run( arg , 60 , &o , &e ) ;
  if( s < 0 ) mc_fail( "crash" , "without %s the program dies of signal %d" , O[a].tag , -s ) ;
  else if( s == 0 ) mc_fail( "status" , "without %s the program reports success" , O[a].tag ) ;
  else if( !*e ) mc_fail( "silent" , "without %s the program stops without a message" , O[a].tag ) ;
  else if( nfiles( ) ) mc_fail( "output" , "without %s the program writes a file" , O[a].tag ) ;
  mc_traces( 1 ) ;
}
static void cli_args( void )
{
  int pick[ NO ] , s ; char *o , *e ; small( pick ) ; put( text( pick , NULL , NO ) ) ;
  static char *ok5[] = { "GLU" , "-i" , "in" , "-c" , "conf" , NULL } , *ok7[] = { "GLU" , "-i" , "in" , "-c" , "conf" , "-o" , "res" , NULL } ;
  if( ( s = run( ok5 , 60 , &o , &e ) ) ) { mc_fail( "status" , "a run without an output file gives status %d" , s ) ; return ; } if( nfiles( ) ) { mc_fail( "output" , "a run without -o writes a file" ) ; return ; }
  if( ( s = run( ok7 , 60 , &o , &e ) ) ) { mc_fail( "status" , "a run with an output file gives status %d" , s ) ; return ; } if( nfiles( ) != 1 || access( "res" , R_OK ) ) { mc_fail( "output" , "a run with -o res leaves %d files" , nfiles( ) ) ; return ; }
  remove( "res" ) ;
  /* every other number of arguments explains itself and touches nothing */
  int n ; for( n = 1 ; n <= 8 ; n++ ) { if( n == 2 || n == 5 || n == 7 ) continue ; char *a[ 10 ] ; int i ; for( i = 0 ; i < n ; i++ ) a[i] = i < 7 ? ok7[i] : "more" ; a[n] = NULL ; s = run( a , 60 , &o , &e ) ;
    if( s < 0 ) { mc_fail( "crash" , "with %d arguments the program dies of signal %d" , n-1 , -s ) ; return ; } if( !strstr( o , "-i {input_file}" ) ) { mc_fail( "usage" , "with %d arguments the usage is not shown" , n-1 ) ; return ; } if( nfiles( ) ) { mc_fail( "output" , "with %d arguments a file is written" , n-1 ) ; return ; } }
  /* files that are not there or are given in the wrong place */
  char *wrong[][ 8 ] = { { "GLU" , "-i" , "nothing" , "-c" , "conf" , "-o" , "res" , NULL } , { "GLU" , "-c" , "conf" , "-i" , "in" , "-o" , "res" , NULL } , { "GLU" , "-i" , "." , "-c" , "conf" , "-o" , "res" , NULL } } ; unsigned i ;
  for( i = 0 ; i < 3 ; i++ ) { FILE *f = fopen( "conf" , "w" ) ; int k ; for( k = 0 ; k < 5000 ; k++ ) fputc( ( k*k*7 + k )%251 + 4 , f ) ; fclose( f ) ; s = run( wrong[i] , 60 , &o , &e ) ;
    if( s < 0 ) { mc_fail( "crash" , "wrong files, variant %u: the program dies of signal %d" , i , -s ) ; return ; } if( s == 0 || !*e ) { mc_fail( "status" , "wrong files, variant %u: status %d%s" , i , s , *e ? "" : " and no message" ) ; return ; } if( nfiles( ) ) { mc_fail( "output" , "wrong files, variant %u: a file is written" , i ) ; return ; } }
  remove( "conf" ) ;
  char *h[] = { "GLU" , "--help=MODE" , NULL } ; if( run( h , 60 , &o , &e ) || !strstr( o , "HEATBATH" ) ) { mc_fail( "usage" , "--help=MODE" ) ; return ; }
  char *au[] = { "GLU" , "--autoin=LANDAU" , NULL } ; if( run( au , 60 , &o , &e ) ) { mc_fail( "usage" , "--autoin=LANDAU" ) ; return ; }
  rec g ; quiet( ) ; if( parse_text( o , &g ) != GLU_SUCCESS ) { mc_fail( "example" , "the printed example is refused" ) ; return ; }
  mc_traces( 18 ) ;
}
/* values a run cannot work with */
static void cli_domain( int c )
{
  static const struct { const char *mode , *tag , *v ; } D[] = { { "CHECK" , "DIM_0" , "0" } , { "CHECK" , "DIM_1" , "0" } , { "HEATBATH" , "SAVE" , "0" } , { "HEATBATH" , "MEASURE" , "0" } , { "HEATBATH" , "BETA" , "0" } , { "GAUGE_FIXING" , "MAX_ITERS" , "0" } , { "CUTTING" , "MAXMOM" , "0" } ,
    { "CUTTING" , "MAX_T" , "0" } , { "SMEARING" , "SMITERS" , "0" } , { "HEATBATH" , "ITERS" , "0" } , { "HEATBATH" , "OVER_ITERS" , "0" } } ;
  int pick[ NO ] , cut , j ; char *o , *e ; small( pick ) ; for( j = 0 ; j < ND ; j++ ) O[2+j].v[0].s = "4" ; for( j = 0 ; j < nval( 0 ) ; j++ ) if( !strcmp( O[0].v[j].s , D[c].mode ) ) pick[0] = j ;
  O[ find( "ITERS" ) ].v[0].s = "3" ; O[ find( "THERM" ) ].v[0].s = "1" ; O[ find( "SMITERS" ) ].v[0].s = "2" ; O[ find( "SMEARTYPE" ) ].v[0].s = "STOUT" ; O[ find( "MAXMOM" ) ].v[0].s = "3" ;
  for( cut = 0 ; cut < ( strcmp( D[c].mode , "CUTTING" ) ? 1 : 11 ) ; cut++ ) { pick[ find( "CUTTYPE" ) ] = cut ;
    char *arg[] = { "GLU" , "-i" , "in" , "-c" , "conf" , "-o" , "res" , NULL } ; put( with( pick , find( D[c].tag ) , D[c].v ) ) ; const int s = run( arg , 60 , &o , &e ) ;
    if( s == -14 ) { mc_fail( "hang" , "MODE = %s with %s = %s (%s) never ends" , D[c].mode , D[c].tag , D[c].v , O[ find( "CUTTYPE" ) ].v[cut].s ) ; return ; }
    if( s < 0 || s == 77 ) { mc_fail( "crash" , "MODE = %s with %s = %s (%s) dies of signal %d" , D[c].mode , D[c].tag , D[c].v , O[ find( "CUTTYPE" ) ].v[cut].s , -s ) ; return ; }
    const int zero = !strncmp( D[c].tag , "DIM" , 3 ) || !strcmp( D[c].tag , "BETA" ) ; if( zero && ( s == 0 || nfiles( ) ) ) { mc_fail( "accepted" , "MODE = %s with %s = %s reports success" , D[c].mode , D[c].tag , D[c].v ) ; return ; }
    if( s && !*e ) { mc_fail( "silent" , "MODE = %s with %s = %s (%s) fails without a message" , D[c].mode , D[c].tag , D[c].v , O[ find( "CUTTYPE" ) ].v[cut].s ) ; return ; }
  } mc_traces( cut ) ;
}
int main( int argc , char **argv )
{
  int k ; mc_init( argc , argv , "C12" , "c12_input" ) ; mc_timeout( 300 ) ; mcomp_config( 1 , POL_RR ) ; mcenv_membytes = 1LL << 40 ;
#define CASE( name , ... ) if( mc_begin( name ) ) { if( chdir( mc_scratch( ) ) ) {} __VA_ARGS__ ; mc_states( nparse ) ; mc_end( ) ; }
#define CASEF( body , ... ) if( mc_begin( __VA_ARGS__ ) ) { if( chdir( mc_scratch( ) ) ) {} body ; mc_states( nparse ) ; mc_end( ) ; }
  CASE( "every value of every option" , quiet( ) ; values( ) )
  for( k = 0 ; k < NO ; k++ ) CASEF( quiet( ) ; pairs( k ) , "pairs of values with %s" , O[k].tag )
  for( k = 0 ; k < NO ; k++ ) CASEF( quiet( ) ; triples( k ) , "triples of values with %s" , O[k].tag )
  for( k = 0 ; k < 3 ; k++ ) CASEF( quiet( ) ; orders( k ) , "orders of the options, assignment %d" , k )
  CASE( "white space and unknown options" , quiet( ) ; layouts( ) )
  for( k = 0 ; k < NO ; k++ ) CASEF( quiet( ) ; missing( k ) , "without %s" , O[k].tag )
  for( k = 0 ; k < NO ; k++ ) if( O[k].kind == K_INT || O[k].kind == K_DBL ) CASEF( quiet( ) ; malformed( k ) , "malformed %s" , O[k].tag )
  for( k = 0 ; k < NO ; k++ ) if( O[k].kind == K_WORD ) CASEF( quiet( ) ; unknown( k ) , "unknown words for %s" , O[k].tag )
  for( k = 0 ; k < 4 ; k++ ) CASEF( quiet( ) ; sizes( k ) , "sizes %d" , k )
  CASE( "files that are no input files" , quiet( ) ; junk( ) )
  CASE( "examples" , examples( ) )
  CASE( "help" , helps( ) )
  if( getenv( "MC_CLI" ) ) {
    CASE( "program: arguments" , cli_args( ) )
    for( k = 0 ; k < NO ; k++ ) CASEF( cli_missing( k ) , "program: without %s" , O[k].tag )
    for( k = 0 ; k < 11 ; k++ ) CASEF( cli_domain( k ) , "program: values %d" , k )
  }
  return mc_finish( ) ;
}
