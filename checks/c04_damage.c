/* C04: every truncation and every small alteration of a configuration file, in
   every format, read by the real reader under the address sanitizer */
#define _GNU_SOURCE
#include "fx.h"
#include "fmt.h"
#include "mc.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <limits.h>
#include <sys/mman.h>
#include "GLUlib_wrap.h"
#include "GLU_malloc.h"

#define CHUNK 400
static char path[ 400 ] ;
static fmt_t F ;
static cplx *U ;                      /* the field stored */
static unsigned char *B ; static size_t N , PO , PL , CORE ; /* the good file; payload; end of payload and check data */
static size_t dims0[ ND ] ;
static int errfd = -1 ;
static double tol0 ;

static int text_check( const char *b , size_t n , const char *s ) { return memmem( b , n , s , strlen( s ) ) != NULL ; }
/* ---- what the damaged file itself records, read with an independent parser */
static int nersc_value( const unsigned char *b , size_t n , const char *key , char *out , size_t no )
{
  /* first line of the header with that token, as the format defines */
  size_t i = 0 , kl = strlen( key ) ;
  while( i < n ) {
    const unsigned char *e = memchr( b + i , '\n' , n - i ) ; size_t l = e ? (size_t)( e - b ) - i : n - i ;
    if( l == 10 && !memcmp( b + i , "END_HEADER" , 10 ) ) return 0 ;
    if( l > kl && !memcmp( b + i , key , kl ) && b[ i + kl ] == ' ' ) {
      const unsigned char *q = memchr( b + i , '=' , l ) ; if( !q ) return 0 ;
      size_t m = b + i + l - q - 1 ; if( m >= no ) m = no - 1 ;
      memcpy( out , q + 1 , m ) ; out[m] = 0 ; return 1 ;
    }
    i += l + 1 ;
  }
  return 0 ;
}
/* the checksum of the format: sum of the 32 bit words of the payload */
static uint32_t wordsum( const unsigned char *p )
{
  uint32_t s = 0 ; size_t i ; int k ;
  for( i = 0 ; i + 4 <= PL ; i += 4 ) { uint32_t w = 0 ; for( k = 0 ; k < 4 ; k++ ) w |= (uint32_t)p[ i + k ] << ( 8*( F.big ? 3 - k : k ) ) ; s += w ; }
  return s ;
}
static double tolplaq( void ) { return 1e-12 ; }

/* one damaged file; must = 1 when it cannot be complete, -1 for the undamaged file */
static void attempt( const unsigned char *b , size_t n , int must , const char *what )
{
  int mem , m ; static long k = 0 ;
  fmt_spit( path , b , n ) ;
  mc_progress( "%s" , what ) ;
  mc_trans( 1 ) ;
  for( mem = 0 ; mem < 2 ; mem++ ) {
    struct head_data H ;
    fx_dims( dims0 ) ;
    if( F.head != JLQCD_HEADER ) { for( m = 0 ; m < ND ; m++ ) Latt.dims[m] = 2 + m ; Latt.Volume = 3 ; }
    Latt.head = F.head ; Latt.flow = 9 ;
    mcenv_membytes = mem ? (long long)( 1.02*( (double)fxV*ND*( NN*16. + 8 ) ) ) : 64LL << 20 ;
    memset( &H , 0x5a , sizeof( H ) ) ;
    if( ftruncate( errfd , 0 ) ) {} lseek( errfd , 0 , SEEK_SET ) ;
    struct site *r = read_file( &H , path ) ;
    fflush( stderr ) ; fflush( stdout ) ;
    mc_traces( 1 ) ; k++ ;
    if( !r ) {
      if( must == -1 ) { mc_fail( "refused" , "%s: the undamaged file was refused by the %s reader" , fmt_name( F ) , mem ? "cheap" : "fast" ) ; return ; }
      continue ;
    }
    /* accepted: is what it handed back the stored field? */
    int same = 1 ;
    for( m = 0 ; m < ND ; m++ ) if( Latt.dims[m] != dims0[m] ) same = 0 ;
    double d = -1 ;
    if( same ) { d = fx_distlat( r , U ) ; if( !( d <= tol0 ) ) same = 0 ; }
    if( must == -1 && !same ) mc_fail( "accepted" , "%s: the undamaged file was read as another field (differs by %g)" , fmt_name( F ) , d ) ;
    if( must == -1 ) { char e[ 4096 ] ; ssize_t l = pread( errfd , e , sizeof( e ) - 1 , 0 ) ; if( l < 0 ) l = 0 ; if( text_check( e , l , "Unequal" ) ) mc_fail( "reported" , "%s: a mismatch was reported for the undamaged file" , fmt_name( F ) ) ; }
    else if( must && !same ) mc_fail( "accepted" , "%s: %s: an incomplete file was accepted (field differs by %g)" , fmt_name( F ) , what , d ) ;
    else if( must == 2 ) mc_fail( "accepted" , "%s: %s: an incomplete file was accepted" , fmt_name( F ) , what ) ;
    else if( !same ) {
      /* a different field: nothing recorded in the file may contradict it */
      switch( F.head ) {
      case MILC_HEADER : case SCIDAC_HEADER : case ILDG_SCIDAC_HEADER : case ILDG_BQCD_HEADER : {
	/* the checksum covers every stored byte: is it the recorded one? (only possible if the alteration touched no payload) */
	int payload_same = n >= PO + PL && !memcmp( b + PO , B + PO , PL ) ;
	if( !payload_same || F.head != MILC_HEADER ) mc_fail( "accepted" , "%s: %s: accepted although the links differ by %g" , fmt_name( F ) , what , d ) ;
	break ; }
      case HIREP_HEADER : case CERN_HEADER : {
	fxV = Latt.Volume ;
	cplx *W = fx_get( r ) ; double p = fmt_plaq( W ) , rec ;
	size_t o = F.head == HIREP_HEADER ? ( ND + 1 )*4 : ND*4 ; unsigned char c[8] ; int i ;
	for( i = 0 ; i < 8 ; i++ ) c[ F.big ? 7 - i : i ] = b[ o + i ] ;
	memcpy( &rec , c , 8 ) ; if( F.head == CERN_HEADER ) rec /= NC ;
	if( !( fabs( p - rec ) < tolplaq() ) ) mc_fail( "accepted" , "%s: %s: accepted with plaquette %.15g, the file records %.15g" , fmt_name( F ) , what , p , rec ) ;
	free( W ) ; break ; }
      case NERSC_HEADER : {
	/* the library insists on one of three and reports the others */
	char v[ 200 ] , e[ 4096 ] ; ssize_t l = pread( errfd , e , sizeof( e ) - 1 , 0 ) ; if( l < 0 ) l = 0 ; e[l] = 0 ;
	fxV = Latt.Volume ;
	cplx *W = fx_get( r ) ; double p = fmt_plaq( W ) , t = fmt_trace( W ) ; free( W ) ;
	int okp = nersc_value( b , n , "PLAQUETTE" , v , 200 ) && fabs( strtof( v , NULL ) - p ) < 1.01e-6 ;
	int okt = nersc_value( b , n , "LINK_TRACE" , v , 200 ) && fabs( strtof( v , NULL ) - t ) < 1.01e-6 ;
	int rp = text_check( e , l , "Unequal Plaquettes" ) , rt = text_check( e , l , "Unequal Link_Traces" ) , rc = text_check( e , l , "Unequal checksums" ) ;
	if( !okp && !rp ) mc_fail( "unreported" , "%s: %s: accepted with a wrong plaquette and not a word" , fmt_name( F ) , what ) ;
	if( !okt && !rt ) mc_fail( "unreported" , "%s: %s: accepted with a wrong link trace and not a word" , fmt_name( F ) , what ) ;
	if( n == N && wordsum( b + PO ) != wordsum( B + PO ) && !rc ) mc_fail( "unreported" , "%s: %s: payload altered and no word about the checksum" , fmt_name( F ) , what ) ;
	if( !okp && !okt && rc ) mc_fail( "accepted" , "%s: %s: accepted although nothing recorded agrees" , fmt_name( F ) , what ) ;
	if( rp && rt && rc ) mc_fail( "accepted" , "%s: %s: accepted although it reported all three mismatches" , fmt_name( F ) , what ) ;
	break ; }
      default : break ; /* LIME, JLQCD: nothing recorded */
      }
    }
    fxV = Latt.Volume ; { size_t v = 1 ; for( m = 0 ; m < ND ; m++ ) v *= dims0[m] ; free_lat( r ) ; fxV = v ; }
    if( mc_nfail() ) return ;
  }
}

static void prepare( fmt_t f , const size_t *dims )
{
  int m ; F = f ; mcomp_config( 1 , POL_RR ) ; sprintf( path , "%s/conf" , mc_scratch() ) ;
  for( m = 0 ; m < ND ; m++ ) dims0[m] = dims[m] ;
  fx_dims( dims ) ;
  errfd = memfd_create( "err" , 0 ) ; dup2( errfd , 2 ) ;
  U = fx_field( F_HOT , 11 ) ;
  B = fmt_encode( f , U , 12 , &N , &PO , &PL ) ;
  tol0 = f.dbl ? 1e-9 : 1e-5 ;
  if( f.store == OUTPUT_SMALL ) tol0 *= 100 ;
  /* end of what is needed: payload, plus the record holding the check values */
  CORE = PO + PL ;
  if( f.head == SCIDAC_HEADER || f.head == ILDG_SCIDAC_HEADER ) { const unsigned char *q = memmem( B + CORE , N - CORE , "</suma>" , 7 ) ; if( q ) CORE = q - B ; }
  if( f.head == ILDG_BQCD_HEADER ) { const unsigned char *q = memmem( B + CORE , N - CORE , "bqcd-cksum" , 10 ) , *p = memmem( B + CORE , N - CORE , "bqcd-plaquette" , 14 ) ; if( p > q ) q = p ; if( q ) CORE = q - B ; }
  attempt( B , N , -1 , "undamaged" ) ;
}
static unsigned char *dup_( size_t extra ) { unsigned char *c = malloc( N + extra ) ; memcpy( c , B , N ) ; return c ; }

/* ---- damage classes; each enumerates its whole space, cut into chunks of CHUNK */
static void d_truncate( size_t lo , size_t hi )
{ size_t i ; char w[ 64 ] ; for( i = lo ; i < hi && i < N && !mc_nfail() ; i++ ) { sprintf( w , "cut to %zu of %zu bytes" , i , N ) ; attempt( B , i , i < PO + PL ? 2 : i < CORE ? 1 : 0 , w ) ; } mc_states( hi > N ? N - lo : hi - lo ) ; }
static const int subs_header[] = { 0x00 , 0xff , -1 , -2 , -3 , '9' , '0' , '-' , ' ' , '<' , '>' , '/' , '\n' , '=' } ;
static void d_header( size_t lo , size_t hi )
{
  /* positions of everything outside the payload */
  size_t i , j ; char w[ 80 ] ; unsigned char *c = dup_( 0 ) ;
  const size_t nout = N - PL ;
  const int ns = mc_thorough() ? 256 : (int)( sizeof( subs_header )/sizeof( int ) ) ;
  for( i = lo ; i < hi && i < nout && !mc_nfail() ; i++ ) {
    size_t p = i < PO ? i : i + PL ;
    for( j = 0 ; (int)j < ns && !mc_nfail() ; j++ ) {
      int s = mc_thorough() ? (int)j : subs_header[j] ;
      unsigned char v = s >= 0 ? (unsigned char)s : s == -1 ? B[p] ^ 1 : s == -2 ? B[p] ^ 0x80 : B[p] ^ 0x20 ;
      if( v == B[p] ) continue ;
      c[p] = v ; sprintf( w , "byte %zu (%s) %02x -> %02x" , p , p < PO ? "header" : "trailer" , B[p] , v ) ;
      attempt( c , N , 0 , w ) ; c[p] = B[p] ; mc_states( 1 ) ;
    }
  }
  free( c ) ;
}
static void d_payload( size_t lo , size_t hi )
{
  static const int sub[] = { 1 , 2 , 4 , 8 , 0x10 , 0x20 , 0x40 , 0x80 , 0xff } ;
  size_t i , j ; char w[ 80 ] ; unsigned char *c = dup_( 0 ) ;
  for( i = lo ; i < hi && i < PL && !mc_nfail() ; i++ ) for( j = 0 ; j < ( mc_thorough() ? 9 : 2 ) ; j++ ) {
    int x = mc_thorough() ? sub[j] : j == 0 ? 1 << ( i & 7 ) : 0x80 ;
    c[ PO + i ] = B[ PO + i ] ^ x ; sprintf( w , "payload byte %zu xor %02x" , i , x ) ;
    attempt( c , N , 0 , w ) ; c[ PO + i ] = B[ PO + i ] ; mc_states( 1 ) ; if( mc_nfail() ) break ;
  }
  free( c ) ;
}
static void d_words( size_t lo , size_t hi )
{
  const int w_ = F.dbl ? 8 : 4 ; size_t i ; int j , b ; char w[ 80 ] ; unsigned char *c = dup_( 0 ) ;
  for( i = lo ; i < hi && ( i + 1 )*w_ <= PL && !mc_nfail() ; i++ ) for( j = 0 ; j < 5 ; j++ ) {
    double v[] = { NAN , INFINITY , 0 , 1e30 , -1 } ; float fv = (float)v[j] ; unsigned char t[8] ;
    memcpy( t , F.dbl ? (void*)&v[j] : (void*)&fv , w_ ) ;
    for( b = 0 ; b < w_ ; b++ ) c[ PO + i*w_ + b ] = F.big ? t[ w_ - 1 - b ] : t[ b ] ;
    sprintf( w , "payload word %zu set to %g" , i , v[j] ) ;
    if( memcmp( c , B , N ) ) attempt( c , N , 0 , w ) ;
    memcpy( c + PO + i*w_ , B + PO + i*w_ , w_ ) ; mc_states( 1 ) ; if( mc_nfail() ) break ;
  }
  free( c ) ;
}
/* exchange two equal-sized blocks, shift by one word, repeat: payload-wide damage */
static void d_blocks( void )
{
  unsigned char *c = dup_( 0 ) ; char w[ 80 ] ;
  size_t sites = fxV , bs = PL/sites , a , b , k ;
  for( a = 0 ; a < sites && !mc_nfail() ; a++ ) for( b = a + 1 ; b < sites && !mc_nfail() ; b++ ) {
    memcpy( c + PO + a*bs , B + PO + b*bs , bs ) ; memcpy( c + PO + b*bs , B + PO + a*bs , bs ) ;
    sprintf( w , "sites %zu and %zu exchanged" , a , b ) ; attempt( c , N , 0 , w ) ; memcpy( c , B , N ) ; mc_states( 1 ) ;
  }
  for( k = 1 ; k < PL && k < 70 && !mc_nfail() ; k++ ) {
    memmove( c + PO , B + PO + k , PL - k ) ; memset( c + PO + PL - k , 0 , k ) ;
    sprintf( w , "payload shifted by %zu bytes" , k ) ; attempt( c , N , 0 , w ) ; memcpy( c , B , N ) ; mc_states( 1 ) ;
    memset( c + PO + PL - k*( PL/70 ) , 0 , k*( PL/70 ) ) ;
    sprintf( w , "last %zu bytes of the payload zeroed" , k*( PL/70 ) ) ; attempt( c , N , 0 , w ) ; memcpy( c , B , N ) ; mc_states( 1 ) ;
  }
  free( c ) ;
}
/* replace B[o,o+l) by s[0,sl) */
static void splice( size_t o , size_t l , const void *s , size_t sl , const char *w )
{
  unsigned char *c = malloc( N - l + sl ) ;
  memcpy( c , B , o ) ; memcpy( c + o , s , sl ) ; memcpy( c + o + sl , B + o + l , N - o - l ) ;
  attempt( c , N - l + sl , 0 , w ) ; free( c ) ; mc_states( 1 ) ;
}
static void d_lines( void ) /* NERSC */
{
  size_t i = 0 ; char w[ 160 ] ; int nl = 0 , q ;
  char *big = malloc( 5000 ) ;
  while( i < PO && !mc_nfail() ) {
    size_t l = (unsigned char*)memchr( B + i , '\n' , N - i ) - ( B + i ) + 1 ;
    char t[ 200 ] ; memcpy( t , B + i , l ) ; t[ l - 1 ] = 0 ;
    sprintf( w , "line %d (%.40s) removed" , nl , t ) ; splice( i , l , "" , 0 , w ) ;
    sprintf( w , "line %d (%.40s) doubled" , nl , t ) ; splice( i , 0 , B + i , l , w ) ;
    sprintf( w , "line %d (%.40s) repeated 60 times" , nl , t ) ; for( q = 0 ; q < 60 ; q++ ) memcpy( big + q*l , B + i , l ) ; splice( i , 0 , big , 60*l , w ) ;
    sprintf( w , "line %d (%.40s) emptied" , nl , t ) ; splice( i , l , "\n" , 1 , w ) ;
    sprintf( w , "line %d (%.40s) without newline" , nl , t ) ; splice( i , l , B + i , l - 1 , w ) ;
    unsigned char *eq = memchr( B + i , '=' , l ) ;
    if( eq ) {
      size_t o = eq - B ; size_t rest = i + l - o - 1 ; /* after '=' up to newline included */
      static const char *vals[] = { "" , " " , " 0" , " -1" , " 1" , " 2" , " 3" , " 99999999999999999999999" , " 4294967296" , " 18446744073709551615" , " 2147483648" , " nan" , " inf" , " xyz" , " 1e400" , "=" } ;
      for( q = 0 ; q < 16 && !mc_nfail() ; q++ ) { char nv[ 64 ] ; sprintf( nv , "%s\n" , vals[q] ) ; sprintf( w , "line %d (%.40s) value set to '%s'" , nl , t , vals[q] ) ; splice( o + 1 , rest , nv , strlen( nv ) , w ) ; }
      for( q = 100 ; q < 300 && !mc_nfail() ; q++ ) { memset( big , 'A' , q ) ; big[q] = '\n' ; sprintf( w , "line %d (%.40s) value of %d letters" , nl , t , q ) ; splice( o + 1 , rest , big , q + 1 , w ) ; }
      sprintf( w , "line %d (%.40s) without equals" , nl , t ) ; splice( o , 1 , "" , 0 , w ) ;
      sprintf( w , "line %d (%.40s) without spaces" , nl , t ) ; splice( o - 1 , 3 , "=" , 1 , w ) ;
    }
    for( q = 100 ; q < 300 && !mc_nfail() ; q++ ) { memset( big , 'B' , q ) ; big[q] = '\n' ; sprintf( w , "line of %d letters before line %d" , q , nl ) ; splice( i , 0 , big , q + 1 , w ) ; }
    i += l ; nl++ ;
  }
  free( big ) ;
}
static uint64_t be64( const unsigned char *p ) { uint64_t v = 0 ; int i ; for( i = 0 ; i < 8 ; i++ ) v = v << 8 | p[i] ; return v ; }
static void d_records( void ) /* LIME-based */
{
  size_t o[ 32 ] , l[ 32 ] ; int n = 0 , i , j , q ; char w[ 200 ] ; size_t p = 0 ;
  while( p + 144 <= N && n < 32 ) { uint64_t d = be64( B + p + 8 ) ; o[n] = p ; l[n] = 144 + ( d + 7 )/8*8 ; p += l[n] ; n++ ; }
  for( i = 0 ; i < n && !mc_nfail() ; i++ ) {
    const char *ty = (char*)B + o[i] + 16 ; if( o[i] + l[i] > N ) l[i] = N - o[i] ;
    uint64_t d = be64( B + o[i] + 8 ) ;
    sprintf( w , "record %s removed" , ty ) ; splice( o[i] , l[i] , "" , 0 , w ) ;
    sprintf( w , "record %s doubled" , ty ) ; splice( o[i] , 0 , B + o[i] , l[i] , w ) ;
    if( !strstr( ty , "binary" ) ) { unsigned char *m = malloc( 14*l[i] ) ; for( q = 0 ; q < 14 ; q++ ) memcpy( m + q*l[i] , B + o[i] , l[i] ) ; sprintf( w , "record %s 14 more times" , ty ) ; splice( o[i] , 0 , m , 14*l[i] , w ) ; free( m ) ; }
    uint64_t len[] = { 0 , 1 , 7 , d - 1 , d + 1 , d - 8 , d + 8 , d + 144 , 1ULL<<31 , 1ULL<<32 , ( 1ULL<<32 ) - 1 , 1ULL<<62 , 1ULL<<63 , ~0ULL , ~0ULL - 1 , ~0ULL - 7 , ~0ULL - 143 } ;
    for( q = 0 ; q < (int)( sizeof( len )/8 ) && !mc_nfail() ; q++ ) {
      unsigned char b[8] ; for( j = 0 ; j < 8 ; j++ ) b[j] = len[q] >> ( 56 - 8*j ) ;
      sprintf( w , "record %s length %llu instead of %llu" , ty , (unsigned long long)len[q] , (unsigned long long)d ) ; splice( o[i] + 8 , 8 , b , 8 , w ) ;
    }
    unsigned char t[ 128 ] ; memset( t , 'x' , 128 ) ; sprintf( w , "record %s type of 128 letters" , ty ) ; splice( o[i] + 16 , 128 , t , 128 , w ) ;
    for( j = i + 1 ; j < n && !mc_nfail() ; j++ ) if( o[j] + l[j] <= N ) {
      unsigned char *c = dup_( 0 ) ; size_t k = o[i] ;
      memcpy( c + k , B + o[j] , l[j] ) ; k += l[j] ; memcpy( c + k , B + o[i] + l[i] , o[j] - o[i] - l[i] ) ; k += o[j] - o[i] - l[i] ; memcpy( c + k , B + o[i] , l[i] ) ;
      sprintf( w , "records %s and %s exchanged" , ty , (char*)B + o[j] + 16 ) ; attempt( c , N , 0 , w ) ; free( c ) ; mc_states( 1 ) ;
    }
    if( strstr( ty , "binary" ) ) continue ;
    /* the text of the record: remove each tag, replace each value; the length is kept in step */
    const unsigned char *x = B + o[i] + 144 ; size_t a = 0 ;
    while( a < d && !mc_nfail() ) {
      size_t e = a ; int tag = x[a] == '<' ;
      if( tag ) { while( e < d && x[e] != '>' ) e++ ; if( e < d ) e++ ; } else while( e < d && x[e] != '<' ) e++ ;
      static const char *vals[] = { "" , "0" , "-1" , "1" , "2" , "3" , "7" , "99" , "99999999999999999999999" , "4294967298" , "2147483647" , "1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40" , "abc" , "<" , "<>" , " " ,
	"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA" , "su9gauge" , "32" , "64" , "F" , "D" , "<suma>" , "<dims>" , "<lx>" , "<field>" , "<precision>" , "<typesize>" , "<colors>" , "<spacetime>" , "?xml" } ;
      for( q = 0 ; q < (int)( sizeof( vals )/sizeof( char* ) ) && !mc_nfail() ; q++ ) {
	size_t vl = strlen( vals[q] ) , nd = d - ( e - a ) + vl , pad = ( 8 - nd%8 )%8 , tot = 144 + nd + pad ;
	unsigned char *c = calloc( 1 , tot ) ; memcpy( c , B + o[i] , 144 ) ;
	for( j = 0 ; j < 8 ; j++ ) c[ 8 + j ] = nd >> ( 56 - 8*j ) ;
	memcpy( c + 144 , x , a ) ; memcpy( c + 144 + a , vals[q] , vl ) ; memcpy( c + 144 + a + vl , x + e , d - e ) ;
	char part[ 32 ] ; snprintf( part , 31 , "%.*s" , (int)( e - a ) , x + a ) ;
	sprintf( w , "record %.24s: '%s' replaced by '%.20s'" , ty , part , vals[q] ) ;
	splice( o[i] , l[i] , c , tot , w ) ; free( c ) ;
      }
      /* ended right here */
      {
	size_t nd = a , pad = ( 8 - nd%8 )%8 , tot = 144 + nd + pad ; unsigned char *c = calloc( 1 , tot ) ;
	memcpy( c , B + o[i] , 144 ) ; for( j = 0 ; j < 8 ; j++ ) c[ 8 + j ] = nd >> ( 56 - 8*j ) ; memcpy( c + 144 , x , a ) ;
	sprintf( w , "record %s ends after %zu bytes" , ty , a ) ; splice( o[i] , l[i] , c , tot , w ) ; free( c ) ;
      }
      a = e ;
    }
  }
}
static void d_binary( void ) /* HIREP, MILC, CERN headers: every 32 bit field */
{
  size_t i ; char w[ 80 ] ; int q , k ; unsigned char *c = dup_( 0 ) ;
  static const uint32_t v[] = { 0 , 1 , 2 , 3 , 4 , 5 , 8 , 0xffffffff , 0x7fffffff , 0x80000000 , 0x10000 , 0x8000 , 20103 , 20104 , 0x7ff00000 , 0x7ff80000 , 1000 } ;
  for( i = 0 ; i + 4 <= PO && !mc_nfail() ; i += 4 ) for( q = 0 ; q < (int)( sizeof( v )/4 ) && !mc_nfail() ; q++ ) {
    for( k = 0 ; k < 4 ; k++ ) c[ i + ( F.big ? 3 - k : k ) ] = v[q] >> ( 8*k ) ;
    sprintf( w , "header word %zu set to %x" , i/4 , v[q] ) ;
    if( memcmp( c , B , N ) ) attempt( c , N , 0 , w ) ;
    memcpy( c + i , B + i , 4 ) ; mc_states( 1 ) ;
  }
  /* pairs of extents, keeping or not keeping the volume */
  size_t d0 = F.head == MILC_HEADER ? 4 : F.head == HIREP_HEADER ? 4 : 0 ; int a , b ;
  static const uint32_t ex[] = { 1 , 2 , 3 , 4 , 8 , 0x10000 , 0x80000000 , 0xffffffff } ;
  for( a = 0 ; a < ND ; a++ ) for( b = a + 1 ; b < ND ; b++ ) for( q = 0 ; q < 64 && !mc_nfail() ; q++ ) {
    for( k = 0 ; k < 4 ; k++ ) { c[ d0 + 4*a + ( F.big ? 3 - k : k ) ] = ex[ q/8 ] >> ( 8*k ) ; c[ d0 + 4*b + ( F.big ? 3 - k : k ) ] = ex[ q%8 ] >> ( 8*k ) ; }
    sprintf( w , "extents %d,%d set to %x,%x" , a , b , ex[q/8] , ex[q%8] ) ;
    if( memcmp( c , B , N ) ) attempt( c , N , 0 , w ) ;
    memcpy( c , B , PO ) ; mc_states( 1 ) ;
  }
  free( c ) ;
}
static void d_other( void ) /* not a configuration at all */
{
  size_t n ; unsigned char c[ 4096 ] ; int k ; char w[ 64 ] ;
  for( k = 0 ; k < 6 && !mc_nfail() ; k++ ) for( n = 0 ; n < 4096 && !mc_nfail() ; n = n < 300 ? n + 1 : n*3/2 ) {
    size_t i ; for( i = 0 ; i < n ; i++ ) c[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? 'A' : k == 3 ? '\n' : k == 4 ? ( i*37 + n ) : "BEGIN_HEADER\n"[ i % 13 ] ;
    sprintf( w , "%zu bytes of junk %d" , n , k ) ; /* JLQCD files carry nothing but the payload */
    attempt( c , n , F.head == JLQCD_HEADER ? ( n < PL ? 2 : 0 ) : 1 , w ) ; mc_states( 1 ) ;
  }
}

int main( int argc , char **argv )
{
  mc_init( argc , argv , "C04" , "c04_damage" ) ;
  mc_timeout( 200 ) ;
  fmt_t all[ 40 ] ; int na = fmt_all( all ) , a , s , m ; size_t sh[ 2 ][ ND ] ;
  for( m = 0 ; m < ND ; m++ ) { sh[0][m] = m == ND-1 ? 2 : 1 ; sh[1][m] = 2 ; }
  mcomp_config( 1 , POL_RR ) ;
  for( a = 0 ; a < na ; a++ ) for( s = 0 ; s < 2 ; s++ ) {
    const fmt_t f = all[a] ; const size_t *d = sh[s] ;
    if( f.head == CERN_HEADER && s == 0 ) continue ;
    /* the big lattice only where the small one cannot be used, except in the thorough run */
    const int small_only = s == 1 && f.head != CERN_HEADER && !mc_thorough() ;
    fx_dims( d ) ; U = fx_field( F_HOT , 11 ) ; B = fmt_encode( f , U , 12 , &N , &PO , &PL ) ; free( U ) ; free( B ) ; fx_undims( ) ;
    const size_t n = N , pl = PL ; const int dbl = f.dbl ; size_t k ;
    const char *nm = fmt_name( f ) ; const char *ln = s ? "2^d" : "1..2" ;
#define RUN(cls,lim,call) for( k = 0 ; k < (lim) ; k += CHUNK ) if( mc_begin( "%s %s %s %zu" , nm , ln , cls , k ) ) { prepare( f , d ) ; call ; if( k == 0 ) mc_sample( "%zu byte file, %zu of payload" , N , PL ) ; mc_end( ) ; }
#define RUN1(cls,call) if( mc_begin( "%s %s %s" , nm , ln , cls ) ) { prepare( f , d ) ; call ; mc_end( ) ; }
    RUN1( "blocks" , d_blocks( ) ) ;
    if( small_only ) continue ;
    RUN( "cut" , n , d_truncate( k , k + CHUNK ) ) ;
    RUN( "bytes" , n - pl , d_header( k , k + CHUNK ) ) ;
    RUN( "payload" , pl , d_payload( k , k + CHUNK ) ) ;
    RUN( "words" , pl/( dbl ? 8 : 4 ) , d_words( k , k + CHUNK ) ) ;
    RUN1( "junk" , d_other( ) ) ;
    if( f.head == NERSC_HEADER ) RUN1( "lines" , d_lines( ) ) ;
    if( f.head == SCIDAC_HEADER || f.head == ILDG_SCIDAC_HEADER || f.head == ILDG_BQCD_HEADER || f.head == LIME_HEADER ) RUN1( "records" , d_records( ) ) ;
    if( f.head == HIREP_HEADER || f.head == CERN_HEADER || f.head == MILC_HEADER ) RUN1( "binary" , d_binary( ) ) ;
  }
  return mc_finish( ) ;
}
