/* logger.c with the definitions of system.h it calls; the code is included, not copied */
#include "coda/system.c"
#include "coda/logger.c"
