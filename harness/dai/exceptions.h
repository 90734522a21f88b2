#pragma once
#include "alldai.h"
