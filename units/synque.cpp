// instantiation of coda::synque for an element whose copies are arbitrary code that may throw (no logic here)
#include <sys/types.h>
#include <coda/synque.hpp>
struct item { long v; item(const item &); item &operator=(const item &); ~item(); };
template class coda::synque<item>;
