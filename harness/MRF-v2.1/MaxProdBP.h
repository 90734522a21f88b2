#include "mrf.h"
