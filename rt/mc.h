/* mc: case enumeration framework shared by all harnesses */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>

void mc_init( int argc , char **argv , const char *prop , const char *harness ) ;
int  mc_thorough( void ) ;
const char *mc_cfg( void ) ;            /* configuration name given by the driver */
/* start case; returns 1 in the child that must run it and then call mc_end() */
int  mc_begin( const char *fmt , ... ) __attribute__((format(printf,1,2))) ;
void mc_end( void ) __attribute__((noreturn)) ;
const char *mc_casename( void ) ;
void mc_timeout( int seconds ) ;
/* record a failure of class key */
void mc_fail( const char *key , const char *fmt , ... ) __attribute__((format(printf,2,3))) ;
int  mc_nfail( void ) ;
/* note what is being done; added to the message of a crash */
void mc_progress( const char *fmt , ... ) __attribute__((format(printf,1,2))) ;
void mc_states( long n ) ;
void mc_trans( long n ) ;
void mc_traces( long n ) ;
void mc_evals( long n ) ;
void mc_schedules( long n ) ;
void mc_distinct( uint64_t h ) ;        /* a distinct outcome / state */
void mc_sample( const char *fmt , ... ) __attribute__((format(printf,1,2))) ;
void mc_cap( const char *fmt , ... ) __attribute__((format(printf,1,2))) ; /* a bound that was hit */
int  mc_finish( void ) ;
/* capture everything written to stdout (and optionally stderr) */
void  mc_capture( void ) ;
char *mc_captured( size_t *len ) ;      /* ends the capture; malloc'd */
/* scratch directory, private to the child, removed by the parent */
const char *mc_scratch( void ) ;
uint64_t mc_hash( const void *p , size_t n , uint64_t h ) ;
void *mc_shared( size_t n ) ;           /* zeroed shared memory */
#endif
