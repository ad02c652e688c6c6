/* running the program: its input file, its output and the files it leaves */
#ifndef CLI_H
#define CLI_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include "mc.h"
static struct { const char *tag ; char val[ 64 ] ; } cli_opt[] = {
  { "MODE" , "CHECK" } , { "HEADER" , "NERSC" } , { "DIM_0" , "2" } , { "DIM_1" , "2" } , { "DIM_2" , "2" } ,
#if ND > 3
  { "DIM_3" , "2" } ,
#endif
#if ND > 4
  { "DIM_4" , "2" } ,
#endif
  { "CONFNO" , "0" } , { "RANDOM_TRANSFORM" , "NO" } , { "SEED" , "1234" } , { "GFTYPE" , "NOTHING" } , { "GF_TUNE" , "0.08" } , { "ACCURACY" , "12" } , { "MAX_ITERS" , "1000" } , { "CUTTYPE" , "NOTHING" } , { "FIELD_DEFINITION" , "LINEAR" } ,
  { "MOM_CUT" , "SPHERICAL_CUT" } , { "MAX_T" , "2" } , { "MAXMOM" , "4" } , { "CYL_WIDTH" , "2.0" } , { "ANGLE" , "60" } , { "OUTPUT" , "./" } , { "SMEARTYPE" , "NOTHING" } , { "DIRECTION" , "ALL" } , { "SMITERS" , "2" } , { "ALPHA1" , "0.5" } , { "ALPHA2" , "0.4" } ,
#if ND > 3
  { "ALPHA3" , "0.3" } ,
#endif
#if ND > 4
  { "ALPHA4" , "0.2" } ,
#endif
  { "U1_MEAS" , "U1_RECTANGLE" } , { "U1_ALPHA" , "0.0795" } , { "U1_CHARGE" , "-1.0" } , { "CONFIG_INFO" , "info" } , { "STORAGE" , "NERSC_NCxNC" } , { "BETA" , "6.0" } , { "ITERS" , "5" } , { "MEASURE" , "1" } , { "OVER_ITERS" , "1" } , { "SAVE" , "2" } , { "THERM" , "1" } } ;
#define CLI_NO ( (int)( sizeof( cli_opt )/sizeof( cli_opt[0] ) ) )
__attribute__((unused)) static void cli_set( const char *tag , const char *fmt , ... )
{ int i ; va_list ap ; va_start( ap , fmt ) ; for( i = 0 ; i < CLI_NO ; i++ ) if( !strcmp( cli_opt[i].tag , tag ) ) { vsnprintf( cli_opt[i].val , sizeof( cli_opt[i].val ) , fmt , ap ) ; va_end( ap ) ; return ; } va_end( ap ) ; fprintf( stderr , "no option %s\n" , tag ) ; abort( ) ; }
__attribute__((unused)) static const char *cli_get( const char *tag ) { int i ; for( i = 0 ; i < CLI_NO ; i++ ) if( !strcmp( cli_opt[i].tag , tag ) ) return cli_opt[i].val ; abort( ) ; }
__attribute__((unused)) static void cli_input( const char *file ) { FILE *f = fopen( file , "w" ) ; int i ; for( i = 0 ; i < CLI_NO ; i++ ) fprintf( f , "%s = %s\n" , cli_opt[i].tag , cli_opt[i].val ) ; fclose( f ) ; }
static char *cli_out , *cli_err ;
static char *cli_slurp( const char *file , size_t *len )
{ FILE *f = fopen( file , "r" ) ; if( !f ) { if( len ) *len = 0 ; return NULL ; } fseek( f , 0 , SEEK_END ) ; const long n = ftell( f ) ; rewind( f ) ; char *s = malloc( n + 1 ) ; if( fread( s , 1 , n , f ) != (size_t)n ) abort( ) ; s[n] = 0 ; fclose( f ) ; if( len ) *len = n ; return s ; }
/* status of the program, or minus the signal that ended it; its output in cli_out and cli_err */
static long cli_fsize = -1 ; /* limit on the size of a file it writes */
__attribute__((unused)) static int cli_run( const char *conf , const char *out , int limit )
{
  cli_input( ".in" ) ; fflush( stdout ) ; const pid_t p = fork( ) ;
  if( !p ) { const int o = open( ".out" , O_CREAT|O_TRUNC|O_WRONLY , 0600 ) , e = open( ".err" , O_CREAT|O_TRUNC|O_WRONLY , 0600 ) ; dup2( o , 1 ) ; dup2( e , 2 ) ; alarm( limit ) ;
    if( cli_fsize >= 0 ) { struct rlimit r = { cli_fsize , cli_fsize } ; setrlimit( RLIMIT_FSIZE , &r ) ; }
    char *a[] = { "GLU" , "-i" , ".in" , "-c" , (char*)conf , out ? "-o" : NULL , (char*)out , NULL } ; execv( getenv( "MC_CLI" ) , a ) ; _exit( 127 ) ; }
  int st ; waitpid( p , &st , 0 ) ; mc_trans( 1 ) ; mc_traces( 1 ) ; free( cli_out ) ; free( cli_err ) ; cli_out = cli_slurp( ".out" , NULL ) ; cli_err = cli_slurp( ".err" , NULL ) ;
  return WIFSIGNALED( st ) ? -WTERMSIG( st ) : WEXITSTATUS( st ) ;
}
__attribute__((unused)) static int cli_same( const char *a , const char *b )
{ size_t la , lb ; char *x = cli_slurp( a , &la ) , *y = cli_slurp( b , &lb ) ; const int r = x && y && la == lb && !memcmp( x , y , la ) ; free( x ) ; free( y ) ; return r ; }
__attribute__((unused)) static void cli_copy( const char *a , const char *b )
{ size_t l ; char *x = cli_slurp( a , &l ) ; if( !x ) return ; FILE *f = fopen( b , "w" ) ; if( fwrite( x , 1 , l , f ) != l ) abort( ) ; fclose( f ) ; free( x ) ; }
/* names of the files in a directory that do not start with a dot, sorted; returns their number */
static char cli_names[ 256 ][ 64 ] ;
static int cli_cmp( const void *a , const void *b ) { return strcmp( a , b ) ; }
__attribute__((unused)) static int cli_ls( const char *dir )
{ int n = 0 ; DIR *d = opendir( dir ) ; struct dirent *e ; if( !d ) return 0 ; while( ( e = readdir( d ) ) ) if( e->d_name[0] != '.' && e->d_type != DT_DIR && n < 256 ) snprintf( cli_names[ n++ ] , 64 , "%.63s" , e->d_name ) ; closedir( d ) ; qsort( cli_names , n , 64 , cli_cmp ) ; return n ; }
__attribute__((unused)) static void cli_clean( const char *dir )
{ const int n = cli_ls( dir ) ; int i ; char p[ 200 ] ; for( i = 0 ; i < n ; i++ ) { snprintf( p , sizeof( p ) , "%s/%s" , dir , cli_names[i] ) ; unlink( p ) ; } }
#endif
