#pragma once
#include "../SRMP.h"
