#include "MRF-v2.1/mrf.h"
