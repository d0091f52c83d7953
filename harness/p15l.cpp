// Beyond the range of the running offsets (optimised build, no sanitizer).
#define VF_LONG
#include "p15.hpp"
