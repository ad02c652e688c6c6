#include "fmt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

double fmt_plaq( const cplx *U )
{
  double s = 0 ; size_t i ; int m , n ; long c = 0 ; cplx p[ NN ] ;
  for( i = 0 ; i < fxV ; i++ ) for( m = 0 ; m < ND ; m++ ) for( n = 0 ; n < m ; n++ ) { r_plaqm( p , U , i , m , n ) ; s += creal( m_tr( p ) ) ; c++ ; }
  return s / ( (double)c * NC ) ;
}
double fmt_trace( const cplx *U )
{
  double s = 0 ; size_t i ; int m ;
  for( i = 0 ; i < fxV ; i++ ) for( m = 0 ; m < ND ; m++ ) s += creal( m_tr( L( U , i , m ) ) ) ;
  return s / ( (double)fxV*ND*NC ) ;
}
unsigned char *fmt_slurp( const char *path , size_t *n )
{
  FILE *f = fopen( path , "rb" ) ; *n = 0 ;
  if( !f ) return NULL ;
  fseek( f , 0 , SEEK_END ) ; long k = ftell( f ) ; rewind( f ) ;
  unsigned char *b = malloc( k + 1 ) ; *n = fread( b , 1 , k , f ) ; b[*n] = 0 ; fclose( f ) ;
  return b ;
}
void fmt_spit( const char *path , const unsigned char *b , size_t n )
{ FILE *f = fopen( path , "wb" ) ; if( !f ) { perror( path ) ; exit( 9 ) ; } if( fwrite( b , 1 , n , f ) != n ) { perror( path ) ; exit( 9 ) ; } fclose( f ) ; }

/* ---- checksums */
static uint32_t crc_zlib( const unsigned char *p , size_t n )
{ uint32_t c = 0xffffffffu ; size_t i ; int k ; for( i = 0 ; i < n ; i++ ) { c ^= p[i] ; for( k = 0 ; k < 8 ; k++ ) c = ( c >> 1 ) ^ ( c & 1 ? 0xEDB88320u : 0 ) ; } return ~c ; }
static uint32_t crc_posix( const unsigned char *p , size_t n )
{
  uint32_t c = 0 ; size_t i ; int k ;
  for( i = 0 ; i < n ; i++ ) { c ^= (uint32_t)p[i] << 24 ; for( k = 0 ; k < 8 ; k++ ) c = ( c << 1 ) ^ ( c & 0x80000000u ? 0x04C11DB7u : 0 ) ; }
  for( i = n ; i ; i >>= 8 ) { c ^= (uint32_t)( i & 0xff ) << 24 ; for( k = 0 ; k < 8 ; k++ ) c = ( c << 1 ) ^ ( c & 0x80000000u ? 0x04C11DB7u : 0 ) ; }
  return ~c ;
}
static uint32_t rot( uint32_t w , unsigned r ) { return r ? ( w << r ) | ( w >> ( 32 - r ) ) : w ; }

/* ---- byte buffer */
typedef struct { unsigned char *b ; size_t n , cap ; } buf ;
static void put( buf *o , const void *p , size_t n ) { if( o->n + n + 1 > o->cap ) { o->cap = 2*( o->n + n + 1 ) ; o->b = realloc( o->b , o->cap ) ; } memcpy( o->b + o->n , p , n ) ; o->n += n ; }
static void puts_( buf *o , const char *s ) { put( o , s , strlen( s ) ) ; }
static void rev( void *p , int w ) { unsigned char *c = p , t ; int i ; for( i = 0 ; i < w/2 ; i++ ) { t = c[i] ; c[i] = c[w-1-i] ; c[w-1-i] = t ; } }
static void putu32( buf *o , uint32_t v , int big ) { if( big ) rev( &v , 4 ) ; put( o , &v , 4 ) ; }
static void putreal( buf *o , double v , int dbl , int big )
{ if( dbl ) { if( big ) rev( &v , 8 ) ; put( o , &v , 8 ) ; } else { float f = (float)v ; if( big ) rev( &f , 4 ) ; put( o , &f , 4 ) ; } }
static uint32_t getu32( const unsigned char *p , int big ) { uint32_t v ; memcpy( &v , p , 4 ) ; if( big ) rev( &v , 4 ) ; return v ; }
static double getreal( const unsigned char *p , int dbl , int big )
{ if( dbl ) { double v ; memcpy( &v , p , 8 ) ; if( big ) rev( &v , 8 ) ; return v ; } float f ; memcpy( &f , p , 4 ) ; if( big ) rev( &f , 4 ) ; return f ; }

static int nersc_small( void ) { return NC < 4 ; }
static int perlink( GLU_output s ) { return s == OUTPUT_SMALL ? NN - 1 : s == OUTPUT_GAUGE ? 2*( NC-1 )*NC : 2*NN ; }
/* reals of one link in the storage type */
static void pack( double *r , const cplx *u , GLU_output s )
{
  int k ;
  if( s == OUTPUT_SMALL ) {
#if NC == 3
    r[0] = creal( u[1] ) ; r[1] = cimag( u[1] ) ; r[2] = creal( u[2] ) ; r[3] = cimag( u[2] ) ; r[4] = creal( u[3] ) ; r[5] = cimag( u[3] ) ; r[6] = carg( u[0] ) ; r[7] = carg( u[6] ) ;
#elif NC == 2
    r[0] = carg( u[0] ) ; r[1] = creal( u[1] ) ; r[2] = cimag( u[1] ) ;
#endif
    return ;
  }
  for( k = 0 ; k < perlink( s )/2 ; k++ ) { r[2*k] = creal( u[k] ) ; r[2*k+1] = cimag( u[k] ) ; }
}
/* complete the last row: conj of the cofactors */
static void lastrow( cplx *u )
{
  int j , a , b ; cplx m[ NN ] ;
  for( j = 0 ; j < NC ; j++ ) {
    /* determinant with the last row replaced by the unit vector e_j */
    m_cp( m , u ) ; for( a = 0 ; a < NC ; a++ ) m[ ( NC-1 )*NC + a ] = a == j ;
    u[ ( NC-1 )*NC + j ] = conj( m_det( m ) ) ; (void)b ;
  }
}
static void lastrow_safe( cplx *u )
{ cplx v[ NN ] , row[ NC ] ; int j , a ; for( j = 0 ; j < NC ; j++ ) { m_cp( v , u ) ; for( a = 0 ; a < NC ; a++ ) v[ ( NC-1 )*NC + a ] = a == j ; row[j] = conj( m_det( v ) ) ; } for( j = 0 ; j < NC ; j++ ) u[ ( NC-1 )*NC + j ] = row[j] ; (void)lastrow ; }
static void unpack( cplx *u , const double *r , GLU_output s )
{
  int k ;
  m_zero( u ) ;
  if( s == OUTPUT_SMALL ) {
#if NC == 3
    /* first row from |row| = 1, first column likewise, the rest from unitarity */
    cplx u1 = r[0] + I*r[1] , u2 = r[2] + I*r[3] , u3 = r[4] + I*r[5] ;
    double q = 1 - cabs( u1 )*cabs( u1 ) - cabs( u2 )*cabs( u2 ) ; if( q < 0 ) q = 0 ;
    cplx u0 = sqrt( q )*cexp( I*r[6] ) ;
    double p = 1 - q - cabs( u3 )*cabs( u3 ) ; if( p < 0 ) p = 0 ;
    cplx u6 = sqrt( p )*cexp( I*r[7] ) ;
    /* second row = u3*e0 part: solve rows orthonormal with det 1:
       row2 = conj( row0 x row1 ); components: u6 = conj( u1 u5 - u2 u4 ), row0.row1* = 0 */
    /* conj(u1) u4 + conj(u2) u5 = -conj(u0) u3 ;  u1 u5 - u2 u4 = conj(u6) */
    double nrm = cabs( u1 )*cabs( u1 ) + cabs( u2 )*cabs( u2 ) ;
    if( nrm < 1e-300 ) { m_id( u ) ; return ; }
    cplx a = -conj( u0 )*u3 , b = conj( u6 ) ;
    cplx u4 = ( u1*a - conj( u2 )*b )/nrm , u5 = ( u2*a + conj( u1 )*b )/nrm ;
    u[0] = u0 ; u[1] = u1 ; u[2] = u2 ; u[3] = u3 ; u[4] = u4 ; u[5] = u5 ; lastrow_safe( u ) ;
#elif NC == 2
    double q = 1 - r[1]*r[1] - r[2]*r[2] ; if( q < 0 ) q = 0 ;
    u[0] = sqrt( q )*cexp( I*r[0] ) ; u[1] = r[1] + I*r[2] ; u[2] = -conj( u[1] ) ; u[3] = conj( u[0] ) ;
#endif
    return ;
  }
  for( k = 0 ; k < perlink( s )/2 ; k++ ) u[k] = r[2*k] + I*r[2*k+1] ;
  if( s == OUTPUT_GAUGE ) lastrow_safe( u ) ;
}

/* payload of the site-ordered formats, with every checksum */
typedef struct { uint32_t nersc , m29 , m31 , c29 , c31 , posix ; } sums ;
static void sumup( sums *s , const unsigned char *p , fmt_t f )
{
  const int w = f.dbl ? 8 : 4 , n = ND*perlink( f.store ) ; size_t i , t = 0 ; int k ;
  memset( s , 0 , sizeof( *s ) ) ;
  for( i = 0 ; i < fxV ; i++ ) {
    const unsigned char *q = p + i*n*w ;
    uint32_t c = crc_zlib( q , n*w ) ;
    s->c29 ^= rot( c , i % 29 ) ; s->c31 ^= rot( c , i % 31 ) ;
    for( k = 0 ; k < n ; k++ , t++ ) {
      uint32_t v ;
      if( f.dbl ) { uint32_t h = getu32( q + k*w , f.big ) , l = getu32( q + k*w + 4 , f.big ) ; v = h + l ; }
      else v = getu32( q + k*w , f.big ) ;
      s->nersc += v ; s->m29 ^= rot( v , t % 29 ) ; s->m31 ^= rot( v , t % 31 ) ;
    }
  }
  s->posix = crc_posix( p , fxV*n*w ) ;
}
static void payload( buf *o , const cplx *U , fmt_t f )
{
  size_t i ; int m , k ; double r[ 2*NN ] ;
  for( i = 0 ; i < fxV ; i++ ) for( m = 0 ; m < ND ; m++ ) { pack( r , L( U , i , m ) , f.store ) ; for( k = 0 ; k < perlink( f.store ) ; k++ ) putreal( o , r[k] , f.dbl , f.big ) ; }
}
/* LIME record */
static void lime( buf *o , const char *type , const void *data , size_t n , size_t declared )
{
  unsigned char h[ 144 ] ; memset( h , 0 , 144 ) ;
  uint32_t mg = 0x456789abu ; rev( &mg , 4 ) ; memcpy( h , &mg , 4 ) ; h[5] = 1 ; h[6] = 0x80 ;
  uint64_t d = declared ; rev( &d , 8 ) ; memcpy( h + 8 , &d , 8 ) ; strcpy( (char*)h + 16 , type ) ;
  put( o , h , 144 ) ;
  if( data ) { put( o , data , n ) ; static const char z[8] ; if( n % 8 ) put( o , z , 8 - n % 8 ) ; }
}
static void dimlist( char *s , const char *sep ) { int m ; *s = 0 ; for( m = 0 ; m < ND ; m++ ) sprintf( s + strlen( s ) , "%s%zu" , m ? sep : "" , Latt.dims[m] ) ; }
/* hirep site order: spatial coordinates with the last fastest, time slowest */
static size_t hirep_site( size_t i ) { int x[ ND ] , m ; for( m = ND-2 ; m >= 0 ; m-- ) { x[m] = i % Latt.dims[m] ; i /= Latt.dims[m] ; } x[ND-1] = i ; return fx_site( x ) ; }

unsigned char *fmt_encode( fmt_t f , const cplx *U , size_t flow , size_t *len , size_t *po , size_t *pl )
{
  buf o = { malloc( 256 ) , 0 , 256 } , p = { malloc( 256 ) , 0 , 256 } ;
  char s[ 2048 ] , d[ 256 ] ; size_t i , k ; int m ; sums sm ;
  switch( f.head ) {
  case NERSC_HEADER :
    payload( &p , U , f ) ; sumup( &sm , p.b , f ) ;
    puts_( &o , "BEGIN_HEADER\nHDR_VERSION = 1.0\n" ) ;
    if( f.store == OUTPUT_NCxNC ) sprintf( s , "DATATYPE = %dD_SU%d_GAUGE_%dx%d\n" , ND , NC , NC , NC ) ;
    else sprintf( s , "DATATYPE = %dD_SU%d_GAUGE%s\n" , ND , NC , f.store == OUTPUT_SMALL ? "_SMALL" : "" ) ;
    puts_( &o , s ) ; puts_( &o , "STORAGE_FORMAT = 1.0\n" ) ;
    for( m = 0 ; m < ND ; m++ ) { sprintf( s , "DIMENSION_%d = %zu\n" , m+1 , Latt.dims[m] ) ; puts_( &o , s ) ; }
    sprintf( s , "CHECKSUM = %x\nLINK_TRACE = %.10f\nPLAQUETTE = %.10f\n" , sm.nersc , fmt_trace( U ) , fmt_plaq( U ) ) ; puts_( &o , s ) ;
    for( m = 0 ; m < ND ; m++ ) { sprintf( s , "BOUNDARY_%d = PERIODIC\n" , m+1 ) ; puts_( &o , s ) ; }
    sprintf( s , "ENSEMBLE_ID = test\nSEQUENCE_NUMBER = %zu\nENSEMBLE_LABEL = label\nCREATOR_MACHINE = m\nCREATION_DATE = d\nFLOATING_POINT = IEEE%d%s\nEND_HEADER\n" , flow , f.dbl ? 64 : 32 , f.big ? "BIG" : "LITTLE" ) ;
    puts_( &o , s ) ; break ;
  case MILC_HEADER :
    payload( &p , U , f ) ; sumup( &sm , p.b , f ) ;
    putu32( &o , f.dbl ? 20104 : 20103 , f.big ) ;
    for( m = 0 ; m < ND ; m++ ) putu32( &o , Latt.dims[m] , f.big ) ;
    memset( s , 0 , 64 ) ; strcpy( s , "Thu Jan  1 00:00:00 1970 GMT" ) ; put( &o , s , 64 ) ;
    putu32( &o , 0 , f.big ) ; putu32( &o , sm.m29 , f.big ) ; putu32( &o , sm.m31 , f.big ) ; break ;
  case SCIDAC_HEADER : case ILDG_SCIDAC_HEADER : case ILDG_BQCD_HEADER : case LIME_HEADER :
    payload( &p , U , f ) ; sumup( &sm , p.b , f ) ;
    dimlist( d , " " ) ;
    sprintf( s , "<?xml version=\"1.0\" encoding=\"UTF-8\"?><scidacFile><version>1.1</version><spacetime>%d</spacetime><dims>%s</dims><volfmt>0</volfmt></scidacFile>" , ND , d ) ;
    lime( &o , "scidac-private-file-xml" , s , strlen( s ) , strlen( s ) ) ;
    lime( &o , "scidac-file-xml" , "<title>x</title>" , 16 , 16 ) ;
    sprintf( s , "<?xml version=\"1.0\" encoding=\"UTF-8\"?><scidacRecord><version>1.0</version><date>d</date><globaldata>0</globaldata><datatype>QDP_%c%d_ColorMatrix</datatype><precision>%c</precision><colors>%d</colors><typesize>%d</typesize><datacount>%d</datacount></scidacRecord>" ,
	     f.dbl ? 'D' : 'F' , NC , f.dbl ? 'D' : 'F' , NC , ND*NN*2*( f.dbl ? 2 : 1 ) , ND ) ;
    lime( &o , "scidac-private-record-xml" , s , strlen( s ) , strlen( s ) ) ;
    lime( &o , "scidac-record-xml" , "<info>y</info>" , 14 , 14 ) ;
    if( f.head != SCIDAC_HEADER ) {
      static const char *nm[] = { "lx" , "ly" , "lz" , "l3" , "l4" , "l5" } ;
      sprintf( s , "<?xml version=\"1.0\" encoding=\"UTF-8\"?><ildgFormat xmlns=\"http://www.lqcd.org/ildg\"><version>1.0</version><field>su%dgauge</field><precision>%d</precision>" , NC , f.dbl ? 64 : 32 ) ;
      for( m = 0 ; m < ND ; m++ ) { const char *n = m == ND-1 ? "lt" : nm[m] ; sprintf( s + strlen( s ) , "<%s>%zu</%s>" , n , Latt.dims[m] , n ) ; }
      strcat( s , "</ildgFormat>" ) ; lime( &o , "ildg-format" , s , strlen( s ) , strlen( s ) ) ;
    }
    lime( &o , f.head == SCIDAC_HEADER ? "scidac-binary-data" : "ildg-binary-data" , NULL , 0 , p.n ) ; break ;
  case JLQCD_HEADER : payload( &p , U , f ) ; break ;
  case HIREP_HEADER :
    putu32( &o , NC , 1 ) ; putu32( &o , Latt.dims[ND-1] , 1 ) ; for( m = 0 ; m < ND-1 ; m++ ) putu32( &o , Latt.dims[m] , 1 ) ;
    putreal( &o , fmt_plaq( U ) , 1 , 1 ) ;
    for( i = 0 ; i < fxV ; i++ ) for( m = 0 ; m < ND ; m++ ) {
      const cplx *u = L( U , hirep_site( i ) , ( m + ND - 1 ) % ND ) ;
#if NC == 2
      /* real four-vector: u = v0 + i v.sigma */
      putreal( &p , creal( u[0] ) , 1 , 1 ) ; putreal( &p , cimag( u[1] ) , 1 , 1 ) ; putreal( &p , -creal( u[1] ) , 1 , 1 ) ; putreal( &p , cimag( u[0] ) , 1 , 1 ) ; (void)k ;
#else
      for( k = 0 ; k < NN ; k++ ) { putreal( &p , creal( u[k] ) , 1 , 1 ) ; putreal( &p , cimag( u[k] ) , 1 , 1 ) ; }
#endif
    }
    break ;
  case CERN_HEADER :
    putu32( &o , Latt.dims[ND-1] , 0 ) ; for( m = 0 ; m < ND-1 ; m++ ) putu32( &o , Latt.dims[m] , 0 ) ;
    putreal( &o , NC*fmt_plaq( U ) , 1 , 0 ) ;
    { int x[ ND ] , t ; size_t r ;
      for( r = 0 ; r < fxV ; r++ ) {
	i = r ; for( m = ND-2 ; m >= 0 ; m-- ) { x[m] = i % Latt.dims[m] ; i /= Latt.dims[m] ; } x[ND-1] = i ;
	for( t = 0 , m = 0 ; m < ND ; m++ ) t += x[m] ;
	if( t % 2 == 0 ) continue ;
	size_t s0 = fx_site( x ) ;
	for( m = 0 ; m < 2*ND ; m++ ) {
	  int mu = ( m/2 + ND - 1 ) % ND ; const cplx *u = L( U , m & 1 ? fx_dn( s0 , mu ) : s0 , mu ) ;
	  for( k = 0 ; k < NN ; k++ ) { putreal( &p , creal( u[k] ) , 1 , 0 ) ; putreal( &p , cimag( u[k] ) , 1 , 0 ) ; }
	}
      }
    }
    break ;
  default : break ;
  }
  *po = o.n ; *pl = p.n ; put( &o , p.b , p.n ) ;
  if( f.head == SCIDAC_HEADER || f.head == ILDG_SCIDAC_HEADER ) {
    sprintf( s , "<?xml version=\"1.0\" encoding=\"UTF-8\"?><scidacChecksum><version>1.0</version><suma>%x</suma><sumb>%x</sumb></scidacChecksum>" , sm.c29 , sm.c31 ) ;
    lime( &o , "scidac-checksum" , s , strlen( s ) , strlen( s ) ) ;
  }
  if( f.head == ILDG_BQCD_HEADER ) {
    sprintf( s , "%.12f" , fmt_plaq( U ) ) ; lime( &o , "bqcd-plaquette" , s , strlen( s ) , strlen( s ) ) ;
    sprintf( s , "%u %zu" , sm.posix , p.n ) ; lime( &o , "bqcd-cksum" , s , strlen( s ) , strlen( s ) ) ;
  }
  free( p.b ) ; *len = o.n ; return o.b ;
}

#define BAD(...) do { if( !d->err[0] ) snprintf( d->err , sizeof( d->err ) , __VA_ARGS__ ) ; } while( 0 )
static int tagval( const char *x , const char *tag , char *out , size_t n )
{ char o[ 64 ] , c[ 64 ] ; sprintf( o , "<%s>" , tag ) ; sprintf( c , "</%s>" , tag ) ; const char *a = strstr( x , o ) , *b ; if( !a ) return 0 ; a += strlen( o ) ; b = strstr( a , c ) ; if( !b || (size_t)( b - a ) >= n ) return 0 ; memcpy( out , a , b - a ) ; out[ b - a ] = 0 ; return 1 ; }
static void checksize( fmt_file *d , size_t n , size_t trail ) { if( d->hdr + d->payload + trail != n ) BAD( "file has %zu bytes, header and payload are %zu+%zu+%zu" , n , d->hdr , d->payload , trail ) ; }
static void decode_sites( fmt_file *d , fmt_t f , const unsigned char *b , size_t n , sums *sm )
{
  const int w = f.dbl ? 8 : 4 , pk = perlink( f.store ) ; size_t i ; int m , k ; double r[ 2*NN ] ;
  d->payload = fxV*ND*pk*w ;
  if( d->hdr + d->payload > n ) { BAD( "file has %zu bytes, needs %zu" , n , d->hdr + d->payload ) ; return ; }
  const unsigned char *p = b + d->hdr ;
  sumup( sm , p , f ) ;
  d->U = malloc( fxV*ND*NN*sizeof( cplx ) ) ;
  for( i = 0 ; i < fxV ; i++ ) for( m = 0 ; m < ND ; m++ ) { for( k = 0 ; k < pk ; k++ ) r[k] = getreal( p + ( ( i*ND + m )*pk + k )*w , f.dbl , f.big ) ; unpack( L( d->U , i , m ) , r , f.store ) ; }
}
void fmt_decode( fmt_file *d , fmt_t f , const unsigned char *b , size_t n )
{
  int m ; size_t i , k ; sums sm ; char v[ 256 ] ;
  memset( d , 0 , sizeof( *d ) ) ; d->total = n ;
  switch( f.head ) {
  case NERSC_HEADER : {
    const char *e = strstr( (const char*)b , "\nEND_HEADER\n" ) ;
    if( strncmp( (const char*)b , "BEGIN_HEADER\n" , 13 ) || !e ) { BAD( "no NERSC header" ) ; return ; }
    d->hdr = ( e - (const char*)b ) + 12 ;
    char *h = malloc( d->hdr + 1 ) ; memcpy( h , b , d->hdr ) ; h[ d->hdr ] = 0 ;
#define KEY(k) ( sprintf( v , "\n%s = " , k ) , ( strstr( h , v ) ? strstr( h , v ) + strlen( v ) : NULL ) )
    for( m = 0 ; m < ND ; m++ ) { char kk[ 32 ] ; sprintf( kk , "DIMENSION_%d" , m+1 ) ; const char *q = KEY( kk ) ; if( !q ) BAD( "no %s" , kk ) ; else d->dims[m] = strtoul( q , 0 , 10 ) ; }
    const char *q ;
    if( ( q = KEY( "CHECKSUM" ) ) ) { d->suma = strtoul( q , 0 , 16 ) ; d->has_sum = 1 ; } else BAD( "no checksum" ) ;
    if( ( q = KEY( "LINK_TRACE" ) ) ) { d->trace = strtod( q , 0 ) ; d->has_trace = 1 ; } else BAD( "no link trace" ) ;
    if( ( q = KEY( "PLAQUETTE" ) ) ) { d->plaq = strtod( q , 0 ) ; d->has_plaq = 1 ; } else BAD( "no plaquette" ) ;
    if( ( q = KEY( "SEQUENCE_NUMBER" ) ) ) { d->flow = strtoul( q , 0 , 10 ) ; d->has_flow = 1 ; } else BAD( "no sequence number" ) ;
    char dt[ 64 ] , fp[ 64 ] ;
    if( f.store == OUTPUT_NCxNC ) sprintf( dt , "%dD_SU%d_GAUGE_%dx%d\n" , ND , NC , NC , NC ) ; else sprintf( dt , "%dD_SU%d_GAUGE%s\n" , ND , NC , f.store == OUTPUT_SMALL ? "_SMALL" : "" ) ;
    if( !( q = KEY( "DATATYPE" ) ) || strncmp( q , dt , strlen( dt ) ) ) BAD( "data type is not %s" , dt ) ;
    sprintf( fp , "IEEE%d%s\n" , f.dbl ? 64 : 32 , f.big ? "BIG" : "LITTLE" ) ;
    if( !( q = KEY( "FLOATING_POINT" ) ) || strncmp( q , fp , strlen( fp ) ) ) BAD( "floating point is not %s" , fp ) ;
    free( h ) ;
    for( m = 0 ; m < ND ; m++ ) if( d->dims[m] != Latt.dims[m] ) { BAD( "dimension %d is %zu" , m , d->dims[m] ) ; return ; }
    decode_sites( d , f , b , n , &sm ) ; checksize( d , n , 0 ) ;
    if( d->U && d->suma != sm.nersc ) BAD( "checksum %x recorded, payload has %x" , d->suma , sm.nersc ) ;
    break ; }
  case MILC_HEADER :
    d->hdr = 4 + 4*ND + 64 + 12 ;
    if( n < d->hdr ) { BAD( "short file" ) ; return ; }
    if( getu32( b , f.big ) != ( f.dbl ? 20104 : 20103 ) ) BAD( "magic %u" , getu32( b , f.big ) ) ;
    for( m = 0 ; m < ND ; m++ ) { d->dims[m] = getu32( b + 4 + 4*m , f.big ) ; if( d->dims[m] != Latt.dims[m] ) { BAD( "dimension %d is %zu" , m , d->dims[m] ) ; return ; } }
    if( getu32( b + 4 + 4*ND + 64 , f.big ) ) BAD( "not natural order" ) ;
    d->suma = getu32( b + 8 + 4*ND + 64 , f.big ) ; d->sumb = getu32( b + 12 + 4*ND + 64 , f.big ) ; d->has_sum = 1 ;
    { int z = 0 ; for( k = 0 ; k < 64 ; k++ ) { unsigned char c = b[ 4 + 4*ND + k ] ; if( !c ) z = 1 ; else if( z || c < 32 || c > 126 ) { BAD( "date field holds stray bytes" ) ; break ; } } }
    decode_sites( d , f , b , n , &sm ) ; checksize( d , n , 0 ) ;
    if( d->U && ( d->suma != sm.m29 || d->sumb != sm.m31 ) ) BAD( "checksums %x %x recorded, payload has %x %x" , d->suma , d->sumb , sm.m29 , sm.m31 ) ;
    break ;
  case SCIDAC_HEADER : case ILDG_SCIDAC_HEADER : {
    size_t o = 0 ; int havebin = 0 , havesum = 0 , havefmt = 0 , haverec = 0 , havefile = 0 ; size_t trail = 0 ;
    while( o + 144 <= n ) {
      uint64_t len ; memcpy( &len , b + o + 8 , 8 ) ; rev( &len , 8 ) ;
      if( getu32( b + o , 1 ) != 0x456789abu ) { BAD( "no LIME magic at byte %zu" , o ) ; return ; }
      char type[ 129 ] ; memcpy( type , b + o + 16 , 128 ) ; type[128] = 0 ;
      if( len > n - o - 144 ) { BAD( "record %s of %lu bytes runs past the end" , type , (unsigned long)len ) ; return ; }
      size_t pad = ( 8 - len % 8 ) % 8 ;
      if( strstr( type , "binary-data" ) ) {
	havebin = 1 ; d->hdr = o + 144 ;
	for( m = 0 ; m < ND ; m++ ) if( d->dims[m] != Latt.dims[m] ) { BAD( "dimension %d is %zu" , m , d->dims[m] ) ; return ; }
	decode_sites( d , f , b , n , &sm ) ; if( d->payload != len ) BAD( "binary record of %lu bytes, expected %zu" , (unsigned long)len , d->payload ) ;
	trail = n - o - 144 - len ;
      } else {
	char *x = malloc( len + 1 ) ; memcpy( x , b + o + 144 , len ) ; x[len] = 0 ;
	if( strlen( x ) != len ) BAD( "record %s holds %zu bytes, declares %lu" , type , strlen( x ) , (unsigned long)len ) ;
	if( !strcmp( type , "scidac-private-file-xml" ) ) {
	  havefile = 1 ;
	  if( !tagval( x , "spacetime" , v , sizeof( v ) ) || atoi( v ) != ND ) BAD( "spacetime" ) ;
	  if( !tagval( x , "dims" , v , sizeof( v ) ) ) BAD( "no dims" ) ; else { char *q = v ; for( m = 0 ; m < ND ; m++ ) d->dims[m] = strtoul( q , &q , 10 ) ; }
	  if( !strstr( x , "</scidacFile>" ) ) BAD( "scidacFile element is not closed" ) ;
	}
	if( !strcmp( type , "scidac-private-record-xml" ) ) {
	  haverec = 1 ;
	  if( !tagval( x , "colors" , v , sizeof( v ) ) || atoi( v ) != NC ) BAD( "colors" ) ;
	  if( !tagval( x , "precision" , v , sizeof( v ) ) || strcmp( v , f.dbl ? "D" : "F" ) ) BAD( "precision" ) ;
	  if( !tagval( x , "datacount" , v , sizeof( v ) ) || atoi( v ) != ND ) BAD( "datacount" ) ;
	}
	if( !strcmp( type , "ildg-format" ) ) {
	  static const char *nm[] = { "lx" , "ly" , "lz" , "l3" , "l4" , "l5" } ; havefmt = 1 ; char w[ 32 ] ;
	  sprintf( w , "su%dgauge" , NC ) ; if( !tagval( x , "field" , v , sizeof( v ) ) || strcmp( v , w ) ) BAD( "ildg field is not %s" , w ) ;
	  if( !tagval( x , "precision" , v , sizeof( v ) ) || atoi( v ) != ( f.dbl ? 64 : 32 ) ) BAD( "ildg precision" ) ;
	  for( m = 0 ; m < ND ; m++ ) if( !tagval( x , m == ND-1 ? "lt" : nm[m] , v , sizeof( v ) ) || strtoul( v , 0 , 10 ) != Latt.dims[m] ) BAD( "ildg extent %d" , m ) ;
	}
	if( !strcmp( type , "scidac-checksum" ) ) {
	  havesum = 1 ; if( !havebin ) BAD( "checksum before data" ) ;
	  if( tagval( x , "suma" , v , sizeof( v ) ) ) d->suma = strtoul( v , 0 , 16 ) ; else BAD( "no suma" ) ;
	  if( tagval( x , "sumb" , v , sizeof( v ) ) ) d->sumb = strtoul( v , 0 , 16 ) ; else BAD( "no sumb" ) ;
	}
	free( x ) ;
      }
      o += 144 + len + pad ;
    }
    if( o != n ) BAD( "%zu bytes after the last record" , n > o ? n - o : 0 ) ;
    (void)trail ;
    if( !havebin ) BAD( "no binary record" ) ; if( !havesum ) BAD( "no checksum record" ) ; if( !haverec || !havefile ) BAD( "missing scidac record" ) ;
    if( f.head == ILDG_SCIDAC_HEADER && !havefmt ) BAD( "no ildg-format record" ) ;
    d->has_sum = 1 ;
    if( d->U && ( d->suma != sm.c29 || d->sumb != sm.c31 ) ) BAD( "checksums %x %x recorded, payload has %x %x" , d->suma , d->sumb , sm.c29 , sm.c31 ) ;
    break ; }
  case HIREP_HEADER : {
    const int pk = NC == 2 ? 4 : 2*NN ;
    d->hdr = 4*( ND+1 ) + 8 ; d->payload = fxV*ND*pk*8 ;
    if( n < d->hdr + d->payload ) { BAD( "file has %zu bytes, needs %zu" , n , d->hdr + d->payload ) ; return ; }
    if( getu32( b , 1 ) != NC ) BAD( "NC is %u" , getu32( b , 1 ) ) ;
    d->dims[ND-1] = getu32( b + 4 , 1 ) ; for( m = 0 ; m < ND-1 ; m++ ) d->dims[m] = getu32( b + 8 + 4*m , 1 ) ;
    d->plaq = getreal( b + 4*( ND+1 ) , 1 , 1 ) ; d->has_plaq = 1 ;
    for( m = 0 ; m < ND ; m++ ) if( d->dims[m] != Latt.dims[m] ) { BAD( "dimension %d is %zu" , m , d->dims[m] ) ; return ; }
    d->U = malloc( fxV*ND*NN*sizeof( cplx ) ) ; const unsigned char *p = b + d->hdr ;
    for( i = 0 ; i < fxV ; i++ ) for( m = 0 ; m < ND ; m++ ) {
      cplx *u = L( d->U , hirep_site( i ) , ( m + ND - 1 ) % ND ) ; double r[ 2*NN ] ;
      for( k = 0 ; k < (size_t)pk ; k++ , p += 8 ) r[k] = getreal( p , 1 , 1 ) ;
#if NC == 2
      u[0] = r[0] + I*r[3] ; u[1] = -r[2] + I*r[1] ; u[2] = -conj( u[1] ) ; u[3] = conj( u[0] ) ;
#else
      for( k = 0 ; k < NN ; k++ ) u[k] = r[2*k] + I*r[2*k+1] ;
#endif
    }
    checksize( d , n , 0 ) ; break ; }
  case CERN_HEADER : {
    d->hdr = 4*ND + 8 ; d->payload = fxV*ND*NN*16 ;
    if( n < d->hdr + d->payload ) { BAD( "file has %zu bytes, needs %zu" , n , d->hdr + d->payload ) ; return ; }
    d->dims[ND-1] = getu32( b , 0 ) ; for( m = 0 ; m < ND-1 ; m++ ) d->dims[m] = getu32( b + 4 + 4*m , 0 ) ;
    d->plaq = getreal( b + 4*ND , 1 , 0 )/NC ; d->has_plaq = 1 ;
    for( m = 0 ; m < ND ; m++ ) if( d->dims[m] != Latt.dims[m] ) { BAD( "dimension %d is %zu" , m , d->dims[m] ) ; return ; }
    d->U = malloc( fxV*ND*NN*sizeof( cplx ) ) ; const unsigned char *p = b + d->hdr ;
    size_t r ; int x[ ND ] , t ;
    for( r = 0 ; r < fxV ; r++ ) {
      i = r ; for( m = ND-2 ; m >= 0 ; m-- ) { x[m] = i % Latt.dims[m] ; i /= Latt.dims[m] ; } x[ND-1] = i ;
      for( t = 0 , m = 0 ; m < ND ; m++ ) t += x[m] ;
      if( t % 2 == 0 ) continue ;
      size_t s0 = fx_site( x ) ;
      for( m = 0 ; m < 2*ND ; m++ ) { int mu = ( m/2 + ND - 1 ) % ND ; cplx *u = L( d->U , m & 1 ? fx_dn( s0 , mu ) : s0 , mu ) ; for( k = 0 ; k < NN ; k++ , p += 16 ) u[k] = getreal( p , 1 , 0 ) + I*getreal( p + 8 , 1 , 0 ) ; }
    }
    checksize( d , n , 0 ) ; break ; }
  default : BAD( "no decoder" ) ;
  }
}
const char *fmt_name( fmt_t f )
{
  static char s[4][ 64 ] ; static int k ; k = ( k + 1 ) & 3 ;
  const char *h = f.head == NERSC_HEADER ? "NERSC" : f.head == MILC_HEADER ? "MILC" : f.head == SCIDAC_HEADER ? "SCIDAC" : f.head == ILDG_SCIDAC_HEADER ? "ILDG" :
    f.head == ILDG_BQCD_HEADER ? "BQCD" : f.head == LIME_HEADER ? "LIME" : f.head == JLQCD_HEADER ? "JLQCD" : f.head == HIREP_HEADER ? "HIREP" : "CERN" ;
  sprintf( s[k] , "%s%s%s%s" , h , f.head == NERSC_HEADER ? ( f.store == OUTPUT_SMALL ? "-small" : f.store == OUTPUT_GAUGE ? "-gauge" : "-full" ) : "" , f.dbl ? "-64" : "-32" , f.big ? "be" : "le" ) ;
  return s[k] ;
}
int fmt_all( fmt_t *o )
{
  int n = 0 , d , b , s ;
  static const GLU_output st[3] = { OUTPUT_NCxNC , OUTPUT_GAUGE , OUTPUT_SMALL } ;
  for( s = 0 ; s < ( nersc_small() ? 3 : 2 ) ; s++ ) for( d = 1 ; d >= 0 ; d-- ) for( b = 1 ; b >= 0 ; b-- ) o[n++] = (fmt_t){ NERSC_HEADER , st[s] , d , b } ;
  for( d = 1 ; d >= 0 ; d-- ) for( b = 1 ; b >= 0 ; b-- ) o[n++] = (fmt_t){ MILC_HEADER , OUTPUT_NCxNC , d , b } ;
  for( d = 1 ; d >= 0 ; d-- ) {
    o[n++] = (fmt_t){ SCIDAC_HEADER , OUTPUT_NCxNC , d , 1 } ; o[n++] = (fmt_t){ ILDG_SCIDAC_HEADER , OUTPUT_NCxNC , d , 1 } ;
    o[n++] = (fmt_t){ ILDG_BQCD_HEADER , OUTPUT_NCxNC , d , 1 } ; o[n++] = (fmt_t){ LIME_HEADER , OUTPUT_NCxNC , d , 1 } ;
  }
  o[n++] = (fmt_t){ JLQCD_HEADER , OUTPUT_NCxNC , 1 , 1 } ;
  o[n++] = (fmt_t){ HIREP_HEADER , OUTPUT_NCxNC , 1 , 1 } ;
  if( NC == 3 && ND == 4 ) o[n++] = (fmt_t){ CERN_HEADER , OUTPUT_NCxNC , 1 , 0 } ;
  return n ;
}
int fmt_written( fmt_t *o , GLU_output *ty )
{
  int n = 0 ;
  o[n] = (fmt_t){ NERSC_HEADER , OUTPUT_NCxNC , 1 , 1 } ; ty[n++] = OUTPUT_NCxNC ;
  o[n] = (fmt_t){ NERSC_HEADER , OUTPUT_GAUGE , 1 , 1 } ; ty[n++] = OUTPUT_GAUGE ;
  if( nersc_small() ) { o[n] = (fmt_t){ NERSC_HEADER , OUTPUT_SMALL , 1 , 1 } ; ty[n++] = OUTPUT_SMALL ; }
  o[n] = (fmt_t){ MILC_HEADER , OUTPUT_NCxNC , 1 , 1 } ; ty[n++] = OUTPUT_MILC ;
  o[n] = (fmt_t){ SCIDAC_HEADER , OUTPUT_NCxNC , 1 , 1 } ; ty[n++] = OUTPUT_SCIDAC ;
  o[n] = (fmt_t){ ILDG_SCIDAC_HEADER , OUTPUT_NCxNC , 1 , 1 } ; ty[n++] = OUTPUT_ILDG ;
  o[n] = (fmt_t){ HIREP_HEADER , OUTPUT_NCxNC , 1 , 1 } ; ty[n++] = OUTPUT_HIREP ;
  if( NC == 3 && ND == 4 ) { o[n] = (fmt_t){ CERN_HEADER , OUTPUT_NCxNC , 1 , 0 } ; ty[n++] = OUTPUT_CERN ; }
  return n ;
}
/* does reading project the links back to SU(N)? */
int fmt_reunits( fmt_t f ) { return !f.dbl || f.head == HIREP_HEADER || f.store == OUTPUT_SMALL ; }
