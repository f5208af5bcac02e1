#include "logger.h"
