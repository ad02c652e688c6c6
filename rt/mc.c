#define _GNU_SOURCE
#include "mc.h"
#include "mcomp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <ftw.h>
#include <time.h>

#define NDIST (1u<<18)
#define NSAMP 12
#define LMSG 600
struct shared {
  long states , trans , traces , evals , scheds , ndist , distover ;
  int failed ; char key[ 96 ] ; char msg[ LMSG ] ; char prog[ 160 ] ;
  int nsamp ; char samp[ NSAMP ][ 240 ] ;
  int ncap ; char cap[ 8 ][ 200 ] ;
  uint64_t dist[ NDIST ] ;
} ;
static struct shared *S ;
static const char *prop , *harness , *cfgname = "" , *outp = NULL , *only = NULL ;
static int shard = 0 , nshard = 1 , thorough = 0 , nofork = 0 , listing = 0 , verbose = 0 ;
static long ncase = 0 , nrun = 0 ;
static int tmo = 60 ;
static char cname[ 512 ] ;
static char scratch[ 256 ] ;
static int inchild = 0 ;
static int saved_out = -1 ;
static FILE *fout ;
static int nfail = 0 , nflaky = 0 ;
static long *queue = NULL , mine = -1 , nlate = 0 ;
static double deadline = 0 ;
static double time_now( void ) { struct timespec t ; clock_gettime( CLOCK_REALTIME , &t ) ; return t.tv_sec + 1e-9*t.tv_nsec ; }

void *mc_shared( size_t n )
{
  void *p = mmap( NULL , n , PROT_READ|PROT_WRITE , MAP_SHARED|MAP_ANONYMOUS , -1 , 0 ) ;
  if( p == MAP_FAILED ) { perror( "mmap" ) ; exit( 3 ) ; }
  return p ;
}
uint64_t mc_hash( const void *p , size_t n , uint64_t h )
{
  const unsigned char *c = p ; size_t i ;
  if( !h ) h = 1469598103934665603ULL ;
  for( i = 0 ; i < n ; i++ ) { h ^= c[i] ; h *= 1099511628211ULL ; }
  return h ;
}
static int rmcb( const char *p , const struct stat *s , int t , struct FTW *f ) { (void)s ; (void)t ; (void)f ; return remove( p ) ; }

void mc_init( int argc , char **argv , const char *pr , const char *ha )
{
  int i ;
  prop = pr ; harness = ha ;
  for( i = 1 ; i < argc ; i++ ) {
    if( !strcmp( argv[i] , "--shard" ) && i+1 < argc ) sscanf( argv[++i] , "%d/%d" , &shard , &nshard ) ;
    else if( !strcmp( argv[i] , "--out" ) && i+1 < argc ) outp = argv[++i] ;
    else if( !strcmp( argv[i] , "--cfg" ) && i+1 < argc ) cfgname = argv[++i] ;
    else if( !strcmp( argv[i] , "--case" ) && i+1 < argc ) only = argv[++i] ;
    else if( !strcmp( argv[i] , "--tier" ) && i+1 < argc ) thorough = !strcmp( argv[++i] , "thorough" ) ;
    else if( !strcmp( argv[i] , "--nofork" ) ) nofork = 1 ;
    else if( !strcmp( argv[i] , "--list" ) ) listing = 1 ;
    else if( !strcmp( argv[i] , "-v" ) ) verbose = 1 ;
    else { fprintf( stderr , "unknown argument %s\n" , argv[i] ) ; exit( 3 ) ; }
  }
  S = mc_shared( sizeof( *S ) ) ;
  const char *base = getenv( "MC_SCRATCH" ) ;
  snprintf( scratch , sizeof( scratch ) , "%s/mc.%s.%s.%d" , base ? base : "/tmp" , prop , harness , (int)getpid() ) ;
  if( getenv( "MC_QUEUE" ) && !only && !listing ) {
    int fd = open( getenv( "MC_QUEUE" ) , O_RDWR|O_CREAT|O_CLOEXEC , 0600 ) ;
    if( fd < 0 || ftruncate( fd , 8 ) ) { perror( "queue" ) ; exit( 3 ) ; }
    queue = mmap( NULL , 8 , PROT_READ|PROT_WRITE , MAP_SHARED , fd , 0 ) ;
    if( queue == MAP_FAILED ) { perror( "queue" ) ; exit( 3 ) ; }
  }
  if( getenv( "MC_DEADLINE" ) ) deadline = atof( getenv( "MC_DEADLINE" ) ) ;
  fout = outp ? fopen( outp , "w" ) : stdout ;
  if( !fout ) { perror( outp ) ; exit( 3 ) ; }
  if( outp ) fcntl( fileno( fout ) , F_SETFD , FD_CLOEXEC ) ;
  fprintf( fout , "{\"harness\":\"%s\",\"cfg\":\"%s\",\"failures\":[" , harness , cfgname ) ;
  fflush( fout ) ;
}
int mc_thorough( void ) { return thorough ; }
const char *mc_cfg( void ) { return cfgname ; }
const char *mc_casename( void ) { return cname ; }
void mc_timeout( int s ) { tmo = s ; }
const char *mc_scratch( void ) { mkdir( scratch , 0700 ) ; return scratch ; }

static void jstr( FILE *f , const char *s )
{
  fputc( '"' , f ) ;
  for( ; *s ; s++ ) {
    unsigned char c = *s ;
    if( c == '"' || c == '\\' ) { fputc( '\\' , f ) ; fputc( c , f ) ; }
    else if( c < 32 || c > 126 ) fprintf( f , "\\u%04x" , c ) ;
    else fputc( c , f ) ;
  }
  fputc( '"' , f ) ;
}
static void deadlock( const char *m ) { mc_fail( "deadlock" , "deadlock: %s" , m ) ; mc_end() ; }

static int run_child( int limit , int *timedout )
{
  fflush( NULL ) ;
  pid_t pid = fork() ;
  if( pid < 0 ) { perror( "fork" ) ; exit( 3 ) ; }
  if( pid == 0 ) {
    inchild = 1 ;
    if( outp ) fclose( fout ) ;
    mcomp_on_deadlock = deadlock ;
    int nul = open( "/dev/null" , O_WRONLY ) ;
    if( !verbose ) { dup2( nul , 1 ) ; if( !getenv( "MC_STDERR" ) ) dup2( nul , 2 ) ; }
    close( nul ) ;
    struct rlimit rl = { 0 , 0 } ; setrlimit( RLIMIT_CORE , &rl ) ;
    signal( SIGALRM , SIG_DFL ) ;
    alarm( limit ) ;
    return 1 ;
  }
  int st ;
  while( waitpid( pid , &st , 0 ) < 0 && errno == EINTR ) ;
  *timedout = 0 ;
  if( WIFSIGNALED( st ) ) {
    if( WTERMSIG( st ) == SIGALRM ) *timedout = 1 ;
    else if( !S->failed ) { S->failed = 1 ; strcpy( S->key , "crash" ) ; snprintf( S->msg , LMSG , "process killed by signal %d (%s)" , WTERMSIG( st ) , strsignal( WTERMSIG( st ) ) ) ; }
  } else if( WEXITSTATUS( st ) == 77 ) {
    if( !S->failed ) { S->failed = 1 ; strcpy( S->key , "sanitizer" ) ; strcpy( S->msg , "memory error detected by the address sanitizer" ) ; }
  } else if( WEXITSTATUS( st ) != 0 && !S->failed ) {
    S->failed = 1 ; strcpy( S->key , "exit" ) ; snprintf( S->msg , LMSG , "process exited with %d in the middle of the case" , WEXITSTATUS( st ) ) ;
  }
  if( S->failed && S->prog[0] ) { size_t l = strlen( S->msg ) ; if( l + 4 < LMSG ) snprintf( S->msg + l , LMSG - l , " [%s]" , S->prog ) ; }
  if( access( scratch , F_OK ) == 0 ) nftw( scratch , rmcb , 16 , FTW_DEPTH|FTW_PHYS ) ;
  return 0 ;
}

int mc_begin( const char *fmt , ... )
{
  va_list ap ;
  va_start( ap , fmt ) ; vsnprintf( cname , sizeof( cname ) , fmt , ap ) ; va_end( ap ) ;
  long k = ncase++ ;
  if( listing ) { printf( "%s\n" , cname ) ; return 0 ; }
  if( only ) { if( strcmp( only , cname ) ) return 0 ; }
  else if( queue ) {
    /* the shards share one queue of cases */
    if( mine < 0 ) mine = __sync_fetch_and_add( queue , 1 ) ;
    if( k != mine ) return 0 ;
    mine = -1 ;
  }
  else if( k % nshard != shard ) return 0 ;
  if( deadline && time_now( ) > deadline ) { nlate++ ; return 0 ; }
  nrun++ ;
  if( verbose ) fprintf( stderr , "case %s\n" , cname ) ;
  if( nofork ) { inchild = 1 ; return 1 ; }
  int to , att ; const double tstart = time_now( ) ;
  char key1[ 96 ] = "" , msg1[ LMSG ] = "" ;
  for( att = 0 ; att < 2 ; att++ ) {
    struct { long st , tr , tc , ev , sc ; } sv = { S->states , S->trans , S->traces , S->evals , S->scheds } ;
    S->failed = 0 ; S->prog[0] = 0 ;
    if( run_child( tmo , &to ) ) return 1 ;
    if( to ) { /* deterministic case: try again, alone, with a longer limit */
      S->states = sv.st ; S->trans = sv.tr ; S->traces = sv.tc ; S->evals = sv.ev ; S->scheds = sv.sc ;
      S->failed = 0 ;
      if( run_child( 3*tmo , &to ) ) return 1 ;
      if( to ) { S->failed = 1 ; strcpy( S->key , "hang" ) ; snprintf( S->msg , LMSG , "no result within %d s" , 3*tmo ) ; att = 1 ; strcpy( key1 , "hang" ) ; strcpy( msg1 , S->msg ) ; }
    }
    if( !S->failed ) break ;
    if( att == 0 ) { strcpy( key1 , S->key ) ; strcpy( msg1 , S->msg ) ;
      S->states = sv.st ; S->trans = sv.tr ; S->traces = sv.tc ; S->evals = sv.ev ; S->scheds = sv.sc ; }
  }
  if( getenv( "MC_TIMES" ) ) { FILE *tf = fopen( getenv( "MC_TIMES" ) , "a" ) ; if( tf ) { fprintf( tf , "%8.2f %s %s %s\n" , time_now( ) - tstart , harness , cfgname , cname ) ; fclose( tf ) ; } }
  if( key1[0] ) {
    if( S->failed ) {
      fprintf( fout , "%s{\"case\":" , nfail ? "," : "" ) ; jstr( fout , cname ) ;
      fprintf( fout , ",\"key\":" ) ; jstr( fout , key1 ) ;
      fprintf( fout , ",\"msg\":" ) ; jstr( fout , msg1 ) ;
      fprintf( fout , "}\n" ) ; fflush( fout ) ;
      nfail++ ;
    } else nflaky++ ;
  }
  S->failed = 0 ;
  return 0 ;
}
void mc_end( void )
{
  fflush( NULL ) ;
  if( nofork ) { if( S->failed ) printf( "FAIL %s: %s\n" , S->key , S->msg ) ; exit( 0 ) ; }
  _exit( 0 ) ;
}
void mc_fail( const char *key , const char *fmt , ... )
{
  va_list ap ;
  char m[ LMSG ] ;
  va_start( ap , fmt ) ; vsnprintf( m , sizeof( m ) , fmt , ap ) ; va_end( ap ) ;
  if( verbose || nofork ) fprintf( stderr , "FAIL %s [%s] %s\n" , cname , key , m ) ;
  if( S->failed ) { S->failed++ ; return ; }
  S->failed = 1 ;
  snprintf( S->key , sizeof( S->key ) , "%s" , key ) ;
  strcpy( S->msg , m ) ;
}
void mc_progress( const char *fmt , ... ) { va_list ap ; va_start( ap , fmt ) ; vsnprintf( S->prog , sizeof( S->prog ) , fmt , ap ) ; va_end( ap ) ; }
int mc_nfail( void ) { return S->failed ; }
void mc_states( long n ) { S->states += n ; }
void mc_trans( long n ) { S->trans += n ; }
void mc_traces( long n ) { S->traces += n ; }
void mc_evals( long n ) { S->evals += n ; }
void mc_schedules( long n ) { S->scheds += n ; }
void mc_distinct( uint64_t h )
{
  if( !h ) h = 1 ;
  unsigned i = ( h * 0x9E3779B97F4A7C15ULL ) >> 46 , k ;
  for( k = 0 ; k < 64 ; k++ ) {
    if( S->dist[i] == h ) return ;
    if( !S->dist[i] ) { S->dist[i] = h ; S->ndist++ ; return ; }
    i = ( i + 1 ) & ( NDIST - 1 ) ;
  }
  S->distover++ ;
}
void mc_sample( const char *fmt , ... )
{
  if( S->nsamp >= NSAMP ) return ;
  int n = snprintf( S->samp[ S->nsamp ] , 240 , "%s: " , cname ) ;
  if( n > 200 ) n = 200 ;
  va_list ap ;
  va_start( ap , fmt ) ; vsnprintf( S->samp[ S->nsamp ] + n , 240 - n , fmt , ap ) ; va_end( ap ) ;
  S->nsamp++ ;
}
void mc_cap( const char *fmt , ... )
{
  char b[ 200 ] ; va_list ap ; int i ;
  va_start( ap , fmt ) ; vsnprintf( b , sizeof( b ) , fmt , ap ) ; va_end( ap ) ;
  for( i = 0 ; i < S->ncap ; i++ ) if( !strcmp( S->cap[i] , b ) ) return ;
  if( S->ncap < 8 ) strcpy( S->cap[ S->ncap++ ] , b ) ;
}
static FILE *capf ; static int cap1 = -1 ;
void mc_capture( void )
{
  fflush( stdout ) ;
  cap1 = dup( 1 ) ;
  capf = tmpfile() ;
  if( !capf ) { int fd = memfd_create( "cap" , 0 ) ; capf = fdopen( fd , "w+" ) ; }
  dup2( fileno( capf ) , 1 ) ;
}
char *mc_captured( size_t *len )
{
  fflush( stdout ) ;
  dup2( cap1 , 1 ) ; close( cap1 ) ;
  long n = lseek( fileno( capf ) , 0 , SEEK_END ) ;
  char *b = malloc( n + 1 ) ;
  lseek( fileno( capf ) , 0 , SEEK_SET ) ;
  long k = 0 , r ;
  while( k < n && ( r = read( fileno( capf ) , b + k , n - k ) ) > 0 ) k += r ;
  b[k] = 0 ;
  fclose( capf ) ;
  if( len ) *len = k ;
  return b ;
}
int mc_finish( void )
{
  int i ;
  if( listing ) return 0 ;
  if( nlate ) mc_cap( "out of time: cases left out" ) ;
  fprintf( fout , "],\"cases\":%ld,\"run\":%ld,\"states\":%ld,\"transitions\":%ld,\"traces\":%ld,\"evals\":%ld,\"schedules\":%ld,\"distinct\":%ld,\"flaky\":%d,\"samples\":[" ,
	   ncase , nrun , S->states , S->trans , S->traces , S->evals , S->scheds , S->ndist , nflaky ) ;
  for( i = 0 ; i < S->nsamp ; i++ ) { if( i ) fputc( ',' , fout ) ; jstr( fout , S->samp[i] ) ; }
  fprintf( fout , "],\"caps\":[" ) ;
  for( i = 0 ; i < S->ncap ; i++ ) { if( i ) fputc( ',' , fout ) ; jstr( fout , S->cap[i] ) ; }
  fprintf( fout , "]}\n" ) ;
  fflush( fout ) ;
  if( only && nrun == 0 ) { fprintf( stderr , "no such case\n" ) ; return 3 ; }
  return nfail ? 1 : 0 ;
}
