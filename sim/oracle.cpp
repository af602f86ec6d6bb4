#include "oracle.hpp"
namespace sim { uint64_t Noisy::st = 0x1234567; }
