#pragma once
#include "cista/cista_shim.h"
