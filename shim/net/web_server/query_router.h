#pragma once
#include "net/net_shim.h"
