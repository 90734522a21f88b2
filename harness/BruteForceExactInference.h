#pragma once
#include "FactorGraph.h"
