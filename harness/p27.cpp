#include "p27.hpp"
