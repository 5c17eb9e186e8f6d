#include "oldgeos.hpp"
