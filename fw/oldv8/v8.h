#include "oldv8.hpp"
