/* reader for the big-endian output files of the measurements */
#ifndef BE_H
#define BE_H
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef struct { unsigned char *d ; size_t n , o ; int bad ; } bef ;
static inline int be_open( bef *f , const char *name )
{
  FILE *p = fopen( name , "rb" ) ; memset( f , 0 , sizeof( *f ) ) ; if( !p ) { f->bad = 1 ; return 0 ; }
  fseek( p , 0 , SEEK_END ) ; f->n = ftell( p ) ; rewind( p ) ; f->d = malloc( f->n + 1 ) ; f->n = fread( f->d , 1 , f->n , p ) ; fclose( p ) ; return 1 ;
}
static inline uint32_t be_u32( bef *f )
{ if( f->o + 4 > f->n ) { f->bad = 1 ; return 0 ; } const unsigned char *p = f->d + f->o ; f->o += 4 ; return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3] ; }
static inline double be_f64( bef *f )
{ union { uint64_t u ; double d ; } x ; x.u = 0 ; int i ; if( f->o + 8 > f->n ) { f->bad = 1 ; return 0 ; } for( i = 0 ; i < 8 ; i++ ) x.u = x.u << 8 | f->d[ f->o++ ] ; return x.d ; }
/* 1 if everything was read and nothing was missing */
static inline int be_close( bef *f ) { const int ok = !f->bad && f->o == f->n ; free( f->d ) ; f->d = NULL ; return ok ; }
#endif
