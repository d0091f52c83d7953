#include "p22.hpp"
