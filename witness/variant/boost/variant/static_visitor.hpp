#include "variant.hpp"
