#pragma once
#include "portmacro.h"
