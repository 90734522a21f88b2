// lexical_cast is included but not used by the code under test
#pragma once
#include <string>
