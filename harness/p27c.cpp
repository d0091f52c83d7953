#define VF_CONC
#include "p27.hpp"
