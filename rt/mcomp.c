#include <fcntl.h>
/* Deterministic OpenMP runtime with controlled scheduling, see mcomp.h */
#define _GNU_SOURCE
#include "mcomp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

/* memset/memcpy are intercepted in the instrumented build; the runtime must not observe itself */
static void *rt_set( void *d , int c , size_t n ) { void *r = d ; __asm__ volatile( "rep stosb" : "+D"(d) , "+c"(n) : "a"(c) : "memory" ) ; return r ; }
static void *rt_cpy( void *d , const void *s , size_t n ) { void *r = d ; __asm__ volatile( "rep movsb" : "+D"(d) , "+S"(s) , "+c"(n) : : "memory" ) ; return r ; }
#define memset rt_set
#define memcpy rt_cpy

#define STK (512*1024)
enum { ST_DONE , ST_READY , ST_BARRIER , ST_LOCK } ;

struct lockobj { int held , owner ; uint32_t vc[ MCOMP_MAXT ] ; } ;

struct co {
  void *sp ; char *stack ; int state ; int ws ; struct lockobj *waiting ;
  uint32_t vc[ MCOMP_MAXT ] ;
} ;
struct wshare {
  int inited ; unsigned long long next , end ; long long incr , chunk ; int down ; int ull ; int guided ;
  int left ; int single_taken ; void *copy ; unsigned sect_next , sect_count ;
} ;
#define MAXWS 4096
static struct {
  int n ; int active ; int arrived ; void (*fn)( void* ) ; void *data ;
  struct wshare *ws ; 
} team ;
static struct co co[ MCOMP_MAXT ] ;
static int cur = -1 ;
static int nested = 0 ;
static void *main_sp ;
static int cfg_n = 1 ;
static mcomp_policy cfg_pol = POL_RR ;
struct mcomp_stats mcomp_stats ;
struct mcomp_confset *mcomp_conf = NULL ;
unsigned char *mcomp_ptalts = NULL ;
uintptr_t *mcomp_ptpc = NULL ;
static int hb_on = 0 ;
static int ex_on = 0 ;
static const struct mcomp_dev *ex_dev = NULL ;
static int ex_ndev = 0 , ex_k = 0 ;
#define PCH 4096
static uintptr_t ex_pc[ PCH ] ;

static void default_deadlock( const char *m ) { fprintf( stderr , "mcomp: deadlock: %s\n" , m ) ; abort() ; }
void (*mcomp_on_deadlock)( const char * ) = default_deadlock ;

extern unsigned char mcenv_pattern __attribute__((weak)) ;
void mcomp_config( int n , mcomp_policy p )
{
  if( n < 1 ) n = 1 ;
  if( n > MCOMP_MAXT ) n = MCOMP_MAXT ;
  cfg_n = n ; cfg_pol = p ;
  /* what fresh memory holds must not matter either: huge numbers and no valid
     addresses, different ones in executions that are compared */
  static const unsigned char pat[4] = { 0x7F , 0x47 , 0xC9 , 0x5D } ;
  if( &mcenv_pattern ) mcenv_pattern = pat[ ( n + (int)p - 1 )&3 ] ;
}
int mcomp_nthreads( void ) { return cfg_n ; }

void mcomp_explore( const struct mcomp_confset *pcs , const struct mcomp_dev *dev , int ndev )
{
  memset( ex_pc , 0 , sizeof( ex_pc ) ) ;
  ex_on = 1 ; ex_dev = dev ; ex_ndev = ndev ; ex_k = 0 ;
  if( pcs ) {
    int i , k ;
    for( i = 0 ; i < pcs->n ; i++ ) {
      uintptr_t p[2] = { pcs->c[i].pc1 , pcs->c[i].pc2 } ;
      for( k = 0 ; k < 2 ; k++ ) {
	unsigned h = ( p[k] * 0x9E3779B97F4A7C15ULL ) >> 52 ;
	while( ex_pc[h] && ex_pc[h] != p[k] ) h = (h+1) & (PCH-1) ;
	ex_pc[h] = p[k] ;
      }
    }
  }
}

/* ------------------------------------------------ context switching */
__attribute__((naked,noinline)) static void
ctx_switch( void **save __attribute__((unused)) , void *to __attribute__((unused)) )
{
  __asm__ volatile(
    "pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    "movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    "popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n" ) ;
}

static int pick_next( int from )
{
  int i , n = team.n ;
  switch( cfg_pol ) {
  case POL_LOW : for( i = 0 ; i < n ; i++ ) if( co[i].state == ST_READY ) return i ; break ;
  case POL_HIGH : for( i = n-1 ; i >= 0 ; i-- ) if( co[i].state == ST_READY ) return i ; break ;
  case POL_RRREV :
    for( i = 1 ; i <= n ; i++ ) { int j = ( from - i + 2*n ) % n ; if( co[j].state == ST_READY ) return j ; } break ;
  default :
    for( i = 1 ; i <= n ; i++ ) { int j = ( from + i + n ) % n ; if( co[j].state == ST_READY ) return j ; } break ;
  }
  return -1 ;
}

static void switch_to( int t )
{
  int me = cur ;
  if( t == me ) return ;
  mcomp_stats.switches++ ;
  mcomp_stats.trace = mcomp_stats.trace * 1099511628211UL + (unsigned)( t + 1 + 64*mcomp_stats.points ) ;
  cur = t ;
  ctx_switch( &co[me].sp , co[t].sp ) ;
}

/* current thread cannot go on */
static void block_current( void )
{
  int t = pick_next( cur ) ;
  if( t < 0 ) {
    int i , alldone = 1 ;
    for( i = 0 ; i < team.n ; i++ ) if( co[i].state != ST_DONE ) alldone = 0 ;
    if( !alldone ) mcomp_on_deadlock( "no runnable thread in the team" ) ;
    int me = cur ; cur = -1 ;
    ctx_switch( &co[me].sp , main_sp ) ;
    return ;
  }
  switch_to( t ) ;
}

/* a point where the running thread could be switched away; soft = the base
   policy also switches here (work-sharing points) */
static void sched_point( int soft , uintptr_t pc )
{
  if( cur < 0 || team.n < 2 || nested ) return ;
  long k = mcomp_stats.points++ ;
  if( ex_on ) {
    if( k < MCOMP_MAXPTS ) {
      if( mcomp_ptalts ) {
	int i , c = 0 ;
	for( i = 0 ; i < team.n ; i++ ) if( i != cur && co[i].state == ST_READY ) c++ ;
	mcomp_ptalts[k] = c ;
      }
      if( mcomp_ptpc ) mcomp_ptpc[k] = pc ;
    }
    while( ex_k < ex_ndev && ex_dev[ex_k].point < k ) { ex_k++ ; mcomp_stats.missed++ ; }
    if( ex_k < ex_ndev && ex_dev[ex_k].point == k ) {
      int t = ex_dev[ex_k++].target , i , c = 0 ;
      for( i = 0 ; i < team.n ; i++ ) {
	if( i != cur && co[i].state == ST_READY ) { if( c == t ) { switch_to( i ) ; return ; } c++ ; }
      }
      mcomp_stats.missed++ ;
      return ;
    }
  }
  if( soft && ( cfg_pol == POL_RR || cfg_pol == POL_RRREV ) ) {
    int t = pick_next( cur ) ;
    if( t >= 0 && t != cur ) switch_to( t ) ;
  }
}

/* ------------------------------------------------ vector clocks + shadow */
static void vc_join( uint32_t *a , const uint32_t *b ) { int i ; for( i = 0 ; i < team.n ; i++ ) if( b[i] > a[i] ) a[i] = b[i] ; }

struct acc { uint32_t clk ; uint32_t mask ; uintptr_t pc ; } ;
struct cell { uintptr_t key ; uint32_t gen ; uint32_t idx ; } ;
#define SHT (1u<<22)
static struct cell *sht = NULL ;
static struct acc *arena = NULL ; static size_t arena_n = 0 , arena_cap = 0 ;
static uint32_t gen = 1 ;

void mcomp_hb( int on )
{
  hb_on = on ;
  if( on && !sht ) {
    sht = mmap( NULL , SHT * sizeof( struct cell ) , PROT_READ|PROT_WRITE , MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE , -1 , 0 ) ;
    arena_cap = (size_t)1 << 28 ;
    arena = mmap( NULL , arena_cap * sizeof( struct acc ) , PROT_READ|PROT_WRITE , MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE , -1 , 0 ) ;
  }
}
static void shadow_reset( void ) { gen++ ; arena_n = 0 ; }

static struct cell *shadow_find( uintptr_t key , int create )
{
  uint32_t h = ( key * 0x9E3779B97F4A7C15ULL ) >> 42 ;
  while( sht[h].gen == gen && sht[h].key != key ) h = (h+1) & (SHT-1) ;
  if( sht[h].gen != gen ) {
    if( !create ) return NULL ;
    sht[h].gen = gen ; sht[h].key = key ;
    sht[h].idx = arena_n ; arena_n += 2*team.n ;
    if( arena_n > arena_cap ) { fprintf( stderr , "mcomp: shadow arena exhausted\n" ) ; abort() ; }
    memset( arena + sht[h].idx , 0 , 2*team.n*sizeof( struct acc ) ) ;
  }
  return &sht[h] ;
}
static void shadow_forget( const void *p , size_t n )
{
  if( !hb_on || cur < 0 || team.n < 2 ) return ;
  uintptr_t a = (uintptr_t)p >> 3 , e = ( (uintptr_t)p + n + 7 ) >> 3 ;
  for( ; a < e ; a++ ) {
    struct cell *c = shadow_find( a , 0 ) ;
    if( c ) memset( arena + c->idx , 0 , 2*team.n*sizeof( struct acc ) ) ;
  }
}
static void note_conflict( uintptr_t p1 , uintptr_t p2 , int kind )
{
  if( !mcomp_conf ) return ;
  int i ;
  if( p1 > p2 ) { uintptr_t t = p1 ; p1 = p2 ; p2 = t ; }
  for( i = 0 ; i < mcomp_conf->n ; i++ ) {
    if( mcomp_conf->c[i].pc1 == p1 && mcomp_conf->c[i].pc2 == p2 ) { mcomp_conf->c[i].n++ ; return ; }
  }
  if( mcomp_conf->n >= MCOMP_MAXCONF ) { mcomp_conf->overflow++ ; return ; }
  mcomp_conf->c[ mcomp_conf->n ].pc1 = p1 ; mcomp_conf->c[ mcomp_conf->n ].pc2 = p2 ;
  mcomp_conf->c[ mcomp_conf->n ].kind = kind ; mcomp_conf->c[ mcomp_conf->n ].n = 1 ;
  mcomp_conf->n++ ;
}

static void access_hook( uintptr_t a , size_t n , int w , uintptr_t pc )
{
  if( cur < 0 || team.n < 2 ) return ;
  mcomp_stats.accesses++ ;
  if( ex_on ) {
    unsigned h = ( pc * 0x9E3779B97F4A7C15ULL ) >> 52 ;
    while( ex_pc[h] ) { if( ex_pc[h] == pc ) { sched_point( 0 , pc ) ; break ; } h = (h+1) & (PCH-1) ; }
  }
  if( !hb_on ) return ;
  /* own stack is private unless shared explicitly; other stacks are checked */
  if( a >= (uintptr_t)co[cur].stack && a < (uintptr_t)co[cur].stack + STK ) {
    /* still recorded below only if somebody else touched it: skip for speed */
    return ;
  }
  uintptr_t k = a >> 3 , e = ( a + n - 1 ) >> 3 ;
  const uint32_t *vc = co[cur].vc ;
  for( ; k <= e ; k++ ) {
    unsigned lo = ( k == ( a >> 3 ) ) ? ( a & 7 ) : 0 ;
    unsigned hi = ( k == e ) ? ( ( a + n - 1 ) & 7 ) : 7 ;
    uint32_t mask = ( ( 1u << ( hi + 1 ) ) - 1 ) & ~( ( 1u << lo ) - 1 ) ;
    struct cell *c = shadow_find( k , 1 ) ;
    struct acc *r = arena + c->idx , *wr = r + team.n ;
    struct acc *mine = w ? &wr[cur] : &r[cur] ;
    if( mine->clk == vc[cur] && ( mine->mask & mask ) == mask ) continue ;
    int u ;
    for( u = 0 ; u < team.n ; u++ ) {
      if( u == cur ) continue ;
      if( wr[u].clk > vc[u] && ( wr[u].mask & mask ) ) note_conflict( pc , wr[u].pc , w ? 2 : 1 ) ;
      if( w && r[u].clk > vc[u] && ( r[u].mask & mask ) ) note_conflict( pc , r[u].pc , 1 ) ;
    }
    if( mine->clk == vc[cur] ) mine->mask |= mask ; else { mine->clk = vc[cur] ; mine->mask = mask ; }
    mine->pc = pc ;
  }
}

/* ------------------------------------------------ locks */
static struct lockobj atomic_lock , critical_lock ;
#define NNAMED 64
static struct { void *key ; struct lockobj l ; } named[ NNAMED ] ;
static struct lockobj *named_lock( void *key )
{
  int i ;
  for( i = 0 ; i < NNAMED ; i++ ) {
    if( named[i].key == key || named[i].key == NULL ) { named[i].key = key ; return &named[i].l ; }
  }
  abort() ;
}
static void lock_acquire( struct lockobj *l , int pt )
{
  if( cur < 0 || team.n < 2 || nested ) { l->held = 1 ; l->owner = cur ; return ; }
  if( pt ) sched_point( 0 , 1 ) ;
  while( l->held ) {
    if( l->owner == cur ) mcomp_on_deadlock( "thread acquires a lock it already holds" ) ;
    co[cur].state = ST_LOCK ; co[cur].waiting = l ;
    block_current() ;
  }
  l->held = 1 ; l->owner = cur ;
  vc_join( co[cur].vc , l->vc ) ;
}
static void lock_release( struct lockobj *l , int pt )
{
  l->held = 0 ;
  if( cur < 0 || team.n < 2 || nested ) return ;
  vc_join( l->vc , co[cur].vc ) ; co[cur].vc[cur]++ ;
  int i ;
  for( i = 0 ; i < team.n ; i++ ) if( co[i].state == ST_LOCK && co[i].waiting == l ) { co[i].state = ST_READY ; co[i].waiting = NULL ; }
  if( pt ) sched_point( 0 , 2 ) ;
}

static void region_reset_locks( void ) ;
/* ------------------------------------------------ teams */
static void co_entry( void )
{
  team.fn( team.data ) ;
  co[cur].state = ST_DONE ;
  block_current() ;
  abort() ;
}

static void run_team( void (*fn)( void * ) , void *data , int n , const struct wshare *first )
{
  { static int fd = -2 ; if( fd == -2 ) { const char *e = getenv( "MCOMP_REGIONS" ) ; fd = e ? open( e , O_WRONLY|O_CREAT|O_APPEND , 0644 ) : -1 ; } if( fd >= 0 ) { uintptr_t v = (uintptr_t)fn ; if( write( fd , &v , sizeof( v ) ) ) {} } }
  int i ;
  if( cur >= 0 || n < 2 ) {
    /* nested or single: a team of one */
    struct wshare *sv = team.ws ; int svn = team.n , svc = cur , svws = 0 , svnest = nested ;
    if( cur < 0 ) {
      /* plain single thread */
      struct wshare w1[ 2 ] ; 
      static struct wshare single_ws[ MAXWS ] ;
      (void)w1 ;
      memset( single_ws , 0 , sizeof( struct wshare ) ) ;
      if( first ) single_ws[0] = *first ;
      team.ws = single_ws ; team.n = 1 ; cur = 0 ; svws = co[0].ws ; co[0].ws = 0 ;
      int ws_started = first != NULL ; (void)ws_started ;
      fn( data ) ;
      cur = svc ; team.n = svn ; team.ws = sv ; co[0].ws = svws ;
    } else {
      struct wshare *nws = calloc( 64 , sizeof( struct wshare ) ) ;
      int me = cur ;
      if( first ) nws[0] = *first ;
      svws = co[me].ws ; co[me].ws = 0 ; team.ws = nws ; nested = svnest + 1 ;
      /* no switching can happen while nested > 0 */
      fn( data ) ;
      nested = svnest ; team.ws = sv ; co[me].ws = svws ;
      free( nws ) ;
    }
    return ;
  }
  static struct wshare *mws = NULL ;
  if( !mws ) mws = mmap( NULL , MAXWS * sizeof( struct wshare ) , PROT_READ|PROT_WRITE , MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE , -1 , 0 ) ;
  memset( mws , 0 , sizeof( struct wshare ) ) ;
  if( first ) mws[0] = *first ;
  team.ws = mws ; team.n = n ; team.fn = fn ; team.data = data ; team.arrived = 0 ;
  mcomp_stats.regions++ ;
  for( i = 0 ; i < n ; i++ ) {
    if( !co[i].stack ) {
      co[i].stack = mmap( NULL , STK , PROT_READ|PROT_WRITE , MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE , -1 , 0 ) ;
      mprotect( co[i].stack , 4096 , PROT_NONE ) ;
    }
    void **sp = (void**)( co[i].stack + STK - 64 ) ;
    if( &mcenv_pattern ) { volatile uint64_t *w = (volatile uint64_t*)sp ; int q ; for( q = 1 ; q <= 512 ; q++ ) w[-q] = mcenv_pattern*0x0101010101010101ULL ; }
    *--sp = 0 ;                 /* fake return address, keeps the ABI alignment */
    *--sp = (void*)co_entry ;
    int k ; for( k = 0 ; k < 6 ; k++ ) *--sp = 0 ;
    co[i].sp = sp ; co[i].state = ST_READY ; co[i].ws = 0 ; co[i].waiting = NULL ;
    memset( co[i].vc , 0 , sizeof( co[i].vc ) ) ;
    co[i].vc[i] = 1 ;
  }
  memset( &atomic_lock , 0 , sizeof( atomic_lock ) ) ;
  memset( &critical_lock , 0 , sizeof( critical_lock ) ) ;
  for( i = 0 ; i < NNAMED ; i++ ) memset( named[i].l.vc , 0 , sizeof( named[i].l.vc ) ) ;
  region_reset_locks() ;
  if( hb_on ) shadow_reset() ;
  cur = ( cfg_pol == POL_HIGH || cfg_pol == POL_RRREV ) ? n-1 : 0 ;
  ctx_switch( &main_sp , co[cur].sp ) ;
  cur = -1 ; team.n = 0 ;
}

void GOMP_barrier( void )
{
  if( cur < 0 || team.n < 2 || nested ) return ;
  int i ;
  team.arrived++ ;
  if( team.arrived == team.n ) {
    uint32_t j[ MCOMP_MAXT ] = { 0 } ;
    for( i = 0 ; i < team.n ; i++ ) vc_join( j , co[i].vc ) ;
    for( i = 0 ; i < team.n ; i++ ) { memcpy( co[i].vc , j , sizeof( uint32_t )*team.n ) ; co[i].vc[i]++ ; co[i].state = ST_READY ; }
    team.arrived = 0 ;
    sched_point( 1 , 3 ) ;
    return ;
  }
  co[cur].state = ST_BARRIER ;
  block_current() ;
}
_Bool GOMP_barrier_cancel( void ) { GOMP_barrier() ; return 0 ; }

static int want( unsigned n ) { return n ? ( n > MCOMP_MAXT ? MCOMP_MAXT : (int)n ) : cfg_n ; }
void GOMP_parallel( void (*fn)( void * ) , void *data , unsigned n , unsigned flags )
{ (void)flags ; run_team( fn , data , want( n ) , NULL ) ; }

static void ws_set( struct wshare *w , long long s , long long e , long long inc , long long chunk , int ull )
{
  w->inited = 1 ; w->next = s ; w->end = e ; w->incr = inc ; w->chunk = chunk > 0 ? chunk : 1 ; w->ull = ull ; w->left = 0 ;
  w->down = inc < 0 ;
}
/* current worksharing construct of this thread */
static struct wshare *ws_cur( void ) { return &team.ws[ co[cur<0?0:cur].ws ] ; }
static struct wshare *ws_enter( void )
{
  struct wshare *w = ws_cur() ;
  return w ;
}
static void ws_leave( void )
{
  int me = cur < 0 ? 0 : cur ;
  int lim = nested ? 64 : MAXWS ;
  struct wshare *w = ws_cur() ;
  w->left++ ;
  co[me].ws = ( co[me].ws + 1 ) % lim ;
  /* the slot ahead must be clean for whoever arrives first */
  if( w->left == 1 ) memset( &team.ws[ co[me].ws ] , 0 , sizeof( struct wshare ) ) ;
}
static _Bool ws_take( struct wshare *w , long long *is , long long *ie )
{
  long long s = (long long)w->next , e = (long long)w->end , step = w->incr * w->chunk , n ;
  if( w->incr > 0 ) {
    if( s >= e ) return 0 ;
    n = s + step ; if( n > e ) n = e ;
  } else {
    if( s <= e ) return 0 ;
    n = s + step ; if( n < e ) n = e ;
  }
  w->next = n ; *is = s ; *ie = n ;
  return 1 ;
}
static _Bool loop_start( long s , long e , long inc , long chunk , long *is , long *ie )
{
  sched_point( 1 , 4 ) ;
  struct wshare *w = ws_enter() ;
  if( !w->inited ) ws_set( w , s , e , inc , chunk , 0 ) ;
  long long a , b ;
  if( !ws_take( w , &a , &b ) ) return 0 ;
  *is = a ; *ie = b ; return 1 ;
}
static _Bool loop_next( long *is , long *ie )
{
  sched_point( 1 , 4 ) ;
  long long a , b ;
  if( !ws_take( ws_cur() , &a , &b ) ) return 0 ;
  *is = a ; *ie = b ; return 1 ;
}
void GOMP_loop_end( void ) { ws_leave() ; GOMP_barrier() ; }
void GOMP_loop_end_nowait( void ) { ws_leave() ; }
_Bool GOMP_loop_end_cancel( void ) { GOMP_loop_end() ; return 0 ; }

#define LOOPK(K) \
_Bool GOMP_loop_##K##_start( long s , long e , long inc , long chunk , long *is , long *ie ) { return loop_start( s , e , inc , chunk , is , ie ) ; } \
_Bool GOMP_loop_##K##_next( long *is , long *ie ) { return loop_next( is , ie ) ; } \
_Bool GOMP_loop_ull_##K##_start( _Bool up , unsigned long long s , unsigned long long e , unsigned long long inc , unsigned long long chunk , unsigned long long *is , unsigned long long *ie ) \
{ long a , b ; (void)up ; if( !loop_start( s , e , inc , chunk , &a , &b ) ) return 0 ; *is = a ; *ie = b ; return 1 ; } \
_Bool GOMP_loop_ull_##K##_next( unsigned long long *is , unsigned long long *ie ) \
{ long a , b ; if( !loop_next( &a , &b ) ) return 0 ; *is = a ; *ie = b ; return 1 ; } \
void GOMP_parallel_loop_##K( void (*fn)(void*) , void *data , unsigned n , long s , long e , long inc , long chunk , unsigned flags ) \
{ struct wshare w ; (void)flags ; memset( &w , 0 , sizeof( w ) ) ; ws_set( &w , s , e , inc , chunk , 0 ) ; run_team( fn , data , want(n) , &w ) ; }
LOOPK(dynamic)
LOOPK(nonmonotonic_dynamic)
LOOPK(guided)
LOOPK(nonmonotonic_guided)
/* runtime-scheduled loops have no chunk argument */
#define LOOPR(K) \
_Bool GOMP_loop_##K##_start( long s , long e , long inc , long *is , long *ie ) { return loop_start( s , e , inc , 1 , is , ie ) ; } \
_Bool GOMP_loop_##K##_next( long *is , long *ie ) { return loop_next( is , ie ) ; } \
void GOMP_parallel_loop_##K( void (*fn)(void*) , void *data , unsigned n , long s , long e , long inc , unsigned flags ) \
{ struct wshare w ; (void)flags ; memset( &w , 0 , sizeof( w ) ) ; ws_set( &w , s , e , inc , 1 , 0 ) ; run_team( fn , data , want(n) , &w ) ; }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)

_Bool GOMP_single_start( void )
{
  if( cur < 0 ) return 1 ;
  sched_point( 0 , 5 ) ;
  struct wshare *w = ws_enter() ;
  _Bool r = !w->single_taken ;
  w->single_taken = 1 ;
  ws_leave() ;
  return r ;
}
/* copyprivate: first thread gets NULL and later calls copy_end; others get the pointer after a barrier */
static void *copy_slot ;
void *GOMP_single_copy_start( void )
{
  if( cur < 0 || team.n < 2 || nested ) return NULL ;
  struct wshare *w = ws_enter() ;
  _Bool first = !w->single_taken ;
  w->single_taken = 1 ;
  ws_leave() ;
  if( first ) return NULL ;
  GOMP_barrier() ;
  return copy_slot ;
}
void GOMP_single_copy_end( void *d ) { copy_slot = d ; GOMP_barrier() ; }

unsigned GOMP_sections_start( unsigned count )
{
  sched_point( 1 , 6 ) ;
  struct wshare *w = ws_enter() ;
  if( !w->inited ) { w->inited = 1 ; w->sect_count = count ; w->sect_next = 1 ; }
  return w->sect_next <= w->sect_count ? w->sect_next++ : 0 ;
}
unsigned GOMP_sections_next( void )
{
  sched_point( 1 , 6 ) ;
  struct wshare *w = ws_cur() ;
  return w->sect_next <= w->sect_count ? w->sect_next++ : 0 ;
}
void GOMP_sections_end( void ) { ws_leave() ; GOMP_barrier() ; }
void GOMP_sections_end_nowait( void ) { ws_leave() ; }
void GOMP_parallel_sections( void (*fn)(void*) , void *data , unsigned n , unsigned count , unsigned flags )
{ struct wshare w ; (void)flags ; memset( &w , 0 , sizeof( w ) ) ; w.inited = 1 ; w.sect_count = count ; w.sect_next = 1 ; run_team( fn , data , want(n) , &w ) ; }

void GOMP_atomic_start( void ) { lock_acquire( &atomic_lock , 1 ) ; }
void GOMP_atomic_end( void ) { lock_release( &atomic_lock , 0 ) ; }
void GOMP_critical_start( void ) { lock_acquire( &critical_lock , 1 ) ; }
void GOMP_critical_end( void ) { lock_release( &critical_lock , 1 ) ; }
void GOMP_critical_name_start( void **p ) { lock_acquire( named_lock( p ) , 1 ) ; }
void GOMP_critical_name_end( void **p ) { lock_release( named_lock( p ) , 1 ) ; }
void GOMP_ordered_start( void ) { }
void GOMP_ordered_end( void ) { }
void GOMP_taskwait( void ) { }
void GOMP_taskyield( void ) { }
void GOMP_taskgroup_start( void ) { }
void GOMP_taskgroup_end( void ) { }
void GOMP_task( void (*fn)(void*) , void *data , void (*cpy)(void*,void*) , long sz , long al , _Bool cond , unsigned flags , void **dep , int prio , void *det )
{
  (void)cond ; (void)flags ; (void)dep ; (void)prio ; (void)det ;
  if( cpy ) { char *buf = malloc( sz + al ) ; char *a = (char*)( ( (uintptr_t)buf + al - 1 ) & ~( (uintptr_t)al - 1 ) ) ; cpy( a , data ) ; fn( a ) ; free( buf ) ; }
  else fn( data ) ;
}

/* ------------------------------------------------ omp_ API */
int omp_get_num_threads( void ) { return ( cur < 0 || nested ) ? 1 : team.n ; }
int omp_get_thread_num( void ) { return ( cur < 0 || nested ) ? 0 : cur ; }
int omp_get_max_threads( void ) { return cfg_n ; }
void omp_set_num_threads( int n ) { if( n > 0 ) cfg_n = n > MCOMP_MAXT ? MCOMP_MAXT : n ; }
int omp_get_num_procs( void ) { return cfg_n ; }
int omp_in_parallel( void ) { return cur >= 0 && team.n > 1 ; }
int omp_get_level( void ) { return ( cur >= 0 ) + nested ; }
int omp_get_dynamic( void ) { return 0 ; }
void omp_set_dynamic( int d ) { (void)d ; }
void omp_set_nested( int d ) { (void)d ; }
int omp_get_nested( void ) { return 0 ; }
double omp_get_wtime( void ) { return 0.0 ; }
double omp_get_wtick( void ) { return 1e-9 ; }
#define NLK 256
static struct { void *user ; struct lockobj l ; } userlk[ NLK ] ;
static struct lockobj *ulock( void *u )
{
  int i , fr = -1 ;
  for( i = 0 ; i < NLK ; i++ ) { if( userlk[i].user == u ) return &userlk[i].l ; if( !userlk[i].user && fr < 0 ) fr = i ; }
  if( fr < 0 ) abort() ;
  memset( &userlk[fr] , 0 , sizeof( userlk[fr] ) ) ; userlk[fr].user = u ;
  return &userlk[fr].l ;
}
void omp_init_lock( void *u ) { struct lockobj *l = ulock( u ) ; memset( l , 0 , sizeof( *l ) ) ; }
void omp_destroy_lock( void *u ) { int i ; for( i = 0 ; i < NLK ; i++ ) if( userlk[i].user == u ) userlk[i].user = NULL ; }
void omp_set_lock( void *u ) { lock_acquire( ulock( u ) , 1 ) ; }
void omp_unset_lock( void *u ) { lock_release( ulock( u ) , 1 ) ; }
int omp_test_lock( void *u ) { struct lockobj *l = ulock( u ) ; sched_point( 0 , 7 ) ; if( l->held ) return 0 ; lock_acquire( l , 0 ) ; return 1 ; }

/* ------------------------------------------------ instrumentation callbacks */
#define PC ((uintptr_t)__builtin_return_address(0))
void __tsan_init( void ) { }
void __tsan_func_entry( void *p ) { (void)p ; }
void __tsan_func_exit( void ) { }
void __tsan_vptr_update( void **a , void *b ) { (void)a ; (void)b ; }
void __tsan_vptr_read( void **a ) { (void)a ; }
#define RW(N) \
void __tsan_read##N( void *a ) { access_hook( (uintptr_t)a , N , 0 , PC ) ; } \
void __tsan_write##N( void *a ) { access_hook( (uintptr_t)a , N , 1 , PC ) ; } \
void __tsan_unaligned_read##N( void *a ) { access_hook( (uintptr_t)a , N , 0 , PC ) ; } \
void __tsan_unaligned_write##N( void *a ) { access_hook( (uintptr_t)a , N , 1 , PC ) ; } \
void __tsan_volatile_read##N( void *a ) { access_hook( (uintptr_t)a , N , 0 , PC ) ; } \
void __tsan_volatile_write##N( void *a ) { access_hook( (uintptr_t)a , N , 1 , PC ) ; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range( void *a , size_t n ) { if( n ) access_hook( (uintptr_t)a , n , 0 , PC ) ; }
void __tsan_write_range( void *a , size_t n ) { if( n ) access_hook( (uintptr_t)a , n , 1 , PC ) ; }
void mcomp_range( const void *a , size_t n , int w , uintptr_t pc ) { if( n ) access_hook( (uintptr_t)a , n , w , pc ) ; }
void mcomp_forget( const void *a , size_t n ) { shadow_forget( a , n ) ; }

/* atomics: synchronise through one lock object, also scheduling points */
static struct lockobj tsan_lock ;
static void at_pre( void ) { lock_acquire( &tsan_lock , 1 ) ; }
static void at_post( void ) { lock_release( &tsan_lock , 0 ) ; }
#define AT(B,T) \
T __tsan_atomic##B##_load( const volatile T *a , int m ) { (void)m ; at_pre() ; T r = *a ; at_post() ; return r ; } \
void __tsan_atomic##B##_store( volatile T *a , T v , int m ) { (void)m ; at_pre() ; *a = v ; at_post() ; } \
T __tsan_atomic##B##_exchange( volatile T *a , T v , int m ) { (void)m ; at_pre() ; T r = *a ; *a = v ; at_post() ; return r ; } \
T __tsan_atomic##B##_fetch_add( volatile T *a , T v , int m ) { (void)m ; at_pre() ; T r = *a ; *a = r + v ; at_post() ; return r ; } \
T __tsan_atomic##B##_fetch_sub( volatile T *a , T v , int m ) { (void)m ; at_pre() ; T r = *a ; *a = r - v ; at_post() ; return r ; } \
T __tsan_atomic##B##_fetch_and( volatile T *a , T v , int m ) { (void)m ; at_pre() ; T r = *a ; *a = r & v ; at_post() ; return r ; } \
T __tsan_atomic##B##_fetch_or( volatile T *a , T v , int m ) { (void)m ; at_pre() ; T r = *a ; *a = r | v ; at_post() ; return r ; } \
T __tsan_atomic##B##_fetch_xor( volatile T *a , T v , int m ) { (void)m ; at_pre() ; T r = *a ; *a = r ^ v ; at_post() ; return r ; } \
int __tsan_atomic##B##_compare_exchange_strong( volatile T *a , T *c , T v , int m , int f ) { (void)m ; (void)f ; at_pre() ; T o = *a ; int ok = ( o == *c ) ; if( ok ) *a = v ; else *c = o ; at_post() ; return ok ; } \
int __tsan_atomic##B##_compare_exchange_weak( volatile T *a , T *c , T v , int m , int f ) { return __tsan_atomic##B##_compare_exchange_strong( a , c , v , m , f ) ; } \
T __tsan_atomic##B##_compare_exchange_val( volatile T *a , T c , T v , int m , int f ) { (void)m ; (void)f ; at_pre() ; T o = *a ; if( o == c ) *a = v ; at_post() ; return o ; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence( int m ) { (void)m ; }
void __tsan_atomic_signal_fence( int m ) { (void)m ; }

static void region_reset_locks( void )
{
  int i ;
  for( i = 0 ; i < NLK ; i++ ) memset( userlk[i].l.vc , 0 , sizeof( userlk[i].l.vc ) ) ;
  memset( tsan_lock.vc , 0 , sizeof( tsan_lock.vc ) ) ;
}
