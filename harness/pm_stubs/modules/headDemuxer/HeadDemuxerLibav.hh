#include "mock_modules.hh"
