/* mcomp: a deterministic, controllable OpenMP runtime (replaces libgomp).
   Threads of a team are coroutines; every scheduling decision is taken here. */
#ifndef MCOMP_H
#define MCOMP_H
#include <stddef.h>
#include <stdint.h>
#define MCOMP_MAXT 40

typedef enum { POL_RR , POL_LOW , POL_HIGH , POL_RRREV } mcomp_policy ;

/* team size for the next parallel regions (1 = inline) and base policy */
void mcomp_config( int nthreads , mcomp_policy pol ) ;
int  mcomp_nthreads( void ) ;

/* happens-before conflict detection (only with instrumented code) */
void mcomp_hb( int on ) ;
struct mcomp_conflict { uintptr_t pc1 , pc2 ; int kind ; long n ; } ;
#define MCOMP_MAXCONF 256
struct mcomp_confset { int n ; int overflow ; struct mcomp_conflict c[ MCOMP_MAXCONF ] ; } ;
extern struct mcomp_confset *mcomp_conf ; /* set to shared memory by the user */

/* exploration: preempt at the sched points listed.  Points are counted from 0
   over the whole execution; every point where the running thread could be
   switched away counts. */
struct mcomp_dev { long point ; int target ; } ;
void mcomp_explore( const struct mcomp_confset *pcs , const struct mcomp_dev *dev , int ndev ) ;
/* statistics of the execution so far */
struct mcomp_stats {
  long points ;        /* scheduling points met */
  long switches ;      /* context switches made */
  long regions ;       /* parallel regions run with more than one thread */
  long accesses ;      /* instrumented accesses inside such regions */
  int  missed ;        /* deviations that could not be taken */
  unsigned long trace ; /* hash of the schedule */
} ;
extern struct mcomp_stats mcomp_stats ;
/* candidates: for each point the number of other runnable threads (recorded up to cap) */
#define MCOMP_MAXPTS 65536
extern unsigned char *mcomp_ptalts ; /* optional, user-supplied array of MCOMP_MAXPTS */
extern uintptr_t *mcomp_ptpc ;       /* optional */

/* called on deadlock; must not return */
extern void (*mcomp_on_deadlock)( const char *msg ) ;
#endif
