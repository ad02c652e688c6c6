/* ops: the library's operations as a table, with everything they produce
   (status, returned and printed numbers, files written, resulting links)
   collected for comparison */
#ifndef OPS_H
#define OPS_H
#include "fx.h"
enum {
  OPF_FIELD = 1 ,    /* changes the links */
  OPF_RNG = 2 ,      /* draws random numbers */
  OPF_MEAS = 4 ,     /* measures */
  OPF_GINV = 8 ,     /* what it measures is gauge invariant */
  OPF_COV = 16 ,     /* commutes with gauge transformations */
  OPF_ITER = 32 ,    /* iterates to a tolerance: rounding is amplified */
  OPF_FFT = 64 ,     /* refuses to work without FFTW */
  OPF_MEM = 128 ,    /* asks how much memory there is */
  OPF_IO = 256 ,
  OPF_EVEN = 512 ,   /* needs extents a colouring exists for: even */
  OPF_SLOW = 1024 ,
} ;
#define OP_MAXOBS 20000
#define OP_MAXBYTES (1<<20)
#define OP_MAXFIELD 60000
struct opout {
  int done ; int status ; long nobs ; int over ;
  double obs[ OP_MAXOBS ] ;
  int nfiles ; struct { char name[ 96 ] ; size_t off , n ; } file[ 40 ] ;
  size_t nbytes ; unsigned char bytes[ OP_MAXBYTES ] ;
  int havefield ; double unit ; cplx field[ OP_MAXFIELD ] ;
  long points , regions , accesses , switches , probes , allocs , fopens ; unsigned long failpc ; int failed ; unsigned long trace ;
} ;
struct op { char name[ 64 ] ; int flags ; int (*run)( struct site *lat , const struct op *o ) ; int a , b , c , d ; } ;
#define OP_MAX 200
int  ops_all( struct op *out ) ;        /* fills out, returns the number */
void op_ob( double x ) ;                /* for use by run functions */
/* run in this process; cwd becomes a fresh scratch directory */
void op_run( const struct op *o , const cplx *U , struct opout *r ) ;
/* run in a child: 0 done, 1 crashed (sets *sig), 2 hung, 3 deadlock, 4 exited early (sets *sig) */
int  op_fork( const struct op *o , const cplx *U , struct opout *r , int limit , void (*setup)( void * ) , void *arg , int *sig ) ;
/* empty string if equal within tolerance */
const char *op_diff( const struct opout *a , const struct opout *b , double tol , int nofiles ) ;
double op_tol( const struct op *o ) ;
struct opout *op_new( void ) ;          /* shared memory */
/* parse the numbers of a text */
long op_numbers( const char *t , double *out , long max ) ;
extern double op_alpha , op_beta ;
extern int op_fftw ;
extern int op_easy ;                /* gauge fixing is asked for what it can reach */
extern int op_inject ;              /* count (and refuse) allocations while the operation runs */
extern int op_nolinks ;             /* leave link traces out of what is compared */
int op_files_close( const unsigned char *a , size_t na , const unsigned char *b , size_t nb , double tol ) ;
#endif
