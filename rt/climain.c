/* configures the deterministic runtime of the command-line program from the
   environment before main() runs */
#include "mcomp.h"
#include "mcenv.h"
#include <stdlib.h>
__attribute__((constructor)) static void start( void )
{
  const char *t = getenv( "MCOMP_T" ) , *p = getenv( "MCOMP_P" ) , *f = getenv( "MCENV_FAILAT" ) , *o = getenv( "MCENV_FOPEN_FAILAT" ) ;
  mcomp_config( t ? atoi( t ) : 1 , p ? (mcomp_policy)atoi( p ) : POL_RR ) ;
  mcenv_membytes = 1LL << 40 ;
  if( f ) { mcenv_counting = 1 ; mcenv_failat = atol( f ) ; }
  if( getenv( "MCENV_KILLAT" ) ) mcenv_killat = atol( getenv( "MCENV_KILLAT" ) ) ;
  if( o ) { mcenv_counting = 1 ; mcenv_fopen_failat = atol( o ) ; }
}
