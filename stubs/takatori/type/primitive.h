#pragma once
#include "../../takatori/ty_ops.h"
