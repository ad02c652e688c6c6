/* fixtures and reference arithmetic, independent of the library's own code */
#ifndef FX_H
#define FX_H
#include "Mainfile.h"
#include <complex.h>
#include <stdint.h>
typedef double complex cplx ;
#define NN (NC*NC)

/* ---- geometry (x fastest) */
extern size_t fxV ;                     /* volume */
void fx_dims( const size_t dims[ ND ] ) ; /* sets Latt and initialises it */
void fx_undims( void ) ;
size_t fx_site( const int x[ ND ] ) ;
void fx_coord( int x[ ND ] , size_t i ) ;
size_t fx_up( size_t i , int mu ) ;
size_t fx_dn( size_t i , int mu ) ;
size_t fx_move( size_t i , int mu , int n ) ;
const char *fx_dimstr( void ) ;
/* enumerate shapes: all ND-tuples with extents from list (n entries) with volume <= vmax;
   returns the number and fills out (malloc'd array of ND-tuples) */
int fx_shapes( size_t **out , const size_t *list , int n , size_t vmax ) ;
/* ND-dimensional version of a canonical short list of shapes for expensive checks */
int fx_few_shapes( size_t **out , int level ) ;
int fx_long( size_t **sh , int n , size_t min , size_t vmax ) ; /* appends shapes with one long extent, the others min or min+1 */

/* ---- matrices */
void m_zero( cplx *a ) ; void m_id( cplx *a ) ; void m_cp( cplx *a , const cplx *b ) ;
void m_mul( cplx *r , const cplx *a , const cplx *b ) ;   /* r may alias */
void m_mulad( cplx *r , const cplx *a , const cplx *b ) ; /* a b^dag */
void m_muldb( cplx *r , const cplx *a , const cplx *b ) ; /* a^dag b */
void m_dag( cplx *r , const cplx *a ) ;
void m_add( cplx *r , const cplx *a ) ; void m_axpy( cplx *r , cplx s , const cplx *a ) ;
void m_scale( cplx *r , cplx s ) ;
cplx m_tr( const cplx *a ) ; cplx m_det( const cplx *a ) ;
cplx m_trab( const cplx *a , const cplx *b ) ;
double m_dist( const cplx *a , const cplx *b ) ; /* max abs difference */
double m_unit( const cplx *a ) ; /* max abs of a a^dag - 1, and |det-1| */
void m_exp( cplx *r , const cplx *a ) ; /* matrix exponential by scaling and squaring */
void m_expi( cplx *r , const cplx *h ) ; /* exp(i h) */
void m_log_unitary( cplx *h , const cplx *u ) ; /* hermitian h, exp(i h) = u, eigenphases in (-pi,pi] */
void m_reunit( cplx *u ) ; /* Gram-Schmidt + det 1 */
void m_herm_proj( cplx *h , const cplx *u ) ; /* (u - u^dag)/(2i) - trace/N */
int  m_eig_herm( double *ev , cplx *vec , const cplx *h ) ; /* Jacobi */

/* ---- deterministic generator for fixtures */
uint32_t fx_rand( uint64_t *s ) ; double fx_uni( uint64_t *s ) ; double fx_gauss( uint64_t *s ) ;
void fx_su( cplx *u , uint64_t *s ) ;           /* generic SU(N) */
void fx_su_near( cplx *u , uint64_t *s , double eps ) ;

/* ---- fields: U[ ( site*ND + mu )*NN + elem ] */
enum { F_COLD , F_CENTER , F_DIAG , F_WEAK , F_HOT , F_MED , F_NKIND } ;
extern const char *fx_kindname[] ;
cplx *fx_field( int kind , uint64_t seed ) ;    /* malloc'd */
#define L(U,i,mu) ( (U) + ( (size_t)(i)*ND + (mu) )*NN )
cplx *fx_get( const struct site *lat ) ;
void fx_put( struct site *lat , const cplx *U ) ;
struct site *fx_lat( const cplx *U ) ;          /* allocate + put */
double fx_dist( const cplx *a , const cplx *b ) ;
double fx_distlat( const struct site *lat , const cplx *U ) ;
double fx_unitarity( const struct site *lat ) ;
uint64_t fx_hash( const cplx *U ) ;             /* rounded */
cplx *fx_dup( const cplx *U ) ;
/* ---- reference observables */
void r_plaqm( cplx *r , const cplx *U , size_t i , int mu , int nu ) ;
void r_staple( cplx *r , const cplx *U , size_t i , int mu , int nu ) ; /* both sides, U_mu-like */
cplx *r_gtrans( const cplx *U , const cplx *g ) ; /* g per site */
cplx *fx_gfield( int kind , uint64_t seed ) ;
void r_clover( cplx *F , const cplx *U , size_t i , int mu , int nu ) ; /* sum of the 4 leaves */
void r_GGQ( double *GG , double *Q , double *qx , const cplx *U ) ; /* sum over planes of tr G G and of tr G_1 G_2 (three pairings), G = traceless hermitian part of the four leaves; qx per site or NULL */
void r_plaqs( double *all , double *sp , double *t , const cplx *U ) ; /* averages of Re tr P / NC */
int fx_close( double a , double b , double tol ) ;
#endif
