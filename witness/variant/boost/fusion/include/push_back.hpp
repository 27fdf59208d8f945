#include "cons.hpp"
