#pragma once
#include "../../yugawara/yg_core.h"
