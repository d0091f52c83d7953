// Very long messages only (optimised build, no sanitizer).
#define VF_LONG
#include "p22.hpp"
