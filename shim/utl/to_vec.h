#pragma once
#include "utl/utl_shim.h"
