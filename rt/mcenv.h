#ifndef MCENV_H
#define MCENV_H
#include <stdint.h>
extern long long mcenv_membytes ; /* answer to the memory probe in bytes; <0: the real one */
extern long mcenv_probes ;
extern long mcenv_allocs , mcenv_failat , mcenv_failed , mcenv_fopens , mcenv_fopen_failat ;
extern unsigned long *mcenv_chain ; extern long mcenv_chainmax ;
extern unsigned long *mcenv_failpc ;
extern volatile int mcenv_counting ; extern int mcenv_poison ; extern unsigned char mcenv_pattern ;
extern double (*mcenv_draw)( uint32_t ) ; /* NULL: the generator itself */
extern long mcenv_events , mcenv_killat ; /* file-system events so far, the one before which to die */
/* filter of the Gaussian numbers drawn outside the generator's own file */
extern double _Complex (*mcenv_gauss)( unsigned t , double _Complex z ) ;
#endif
