/* independent encoders and decoders of the configuration formats */
#ifndef FMT_H
#define FMT_H
#include "fx.h"
typedef struct {
  header_mode head ;      /* how the library is told to read it */
  GLU_output store ;      /* OUTPUT_SMALL / GAUGE / NCxNC (NERSC only) */
  int dbl ;               /* 64 bit reals */
  int big ;               /* big endian */
} fmt_t ;
typedef struct {          /* what a file says */
  size_t dims[ ND ] ; size_t flow ; int has_flow ;
  uint32_t suma , sumb ; int has_sum ;
  double plaq , trace ; int has_plaq , has_trace ;
  cplx *U ;               /* links as stored, NULL if undecodable */
  size_t hdr , payload , total ; /* byte counts: header, payload, file */
  char err[ 200 ] ;       /* first inconsistency found */
} fmt_file ;
unsigned char *fmt_encode( fmt_t f , const cplx *U , size_t flow , size_t *len , size_t *payload_off , size_t *payload_len ) ;
void fmt_decode( fmt_file *d , fmt_t f , const unsigned char *b , size_t n ) ;
const char *fmt_name( fmt_t f ) ;
/* every variant an independent program may store, for this NC and ND */
int fmt_all( fmt_t *out ) ;
/* the variants the library writes, with the storage type that asks for them */
int fmt_written( fmt_t *out , GLU_output *type ) ;
unsigned char *fmt_slurp( const char *path , size_t *n ) ;
void fmt_spit( const char *path , const unsigned char *b , size_t n ) ;
double fmt_plaq( const cplx *U ) ; double fmt_trace( const cplx *U ) ;
int fmt_reunits( fmt_t f ) ;
#endif
