#pragma once
#include "tiles/get_tile.h"
