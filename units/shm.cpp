// instantiations of the shared-memory containers whose code is put under contract (no logic here)
#include <stdint.h>
#include <stdlib.h>
#include <string>
#include <coda/shm_hash_map.hpp>
template class shm::stack<uint32_t, 24>;
template class shm::pool<uint64_t, 24>;
template class shm::hash_map<uint64_t, 24, 11>;
