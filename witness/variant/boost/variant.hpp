#include "variant/variant.hpp"
