#include "p15.hpp"
