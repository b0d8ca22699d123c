#include "frameworks.hpp"
