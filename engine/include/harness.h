// Common helpers for harnesses.
#pragma once
#include "sym.h"
#ifdef SYM_NATIVE
struct SymReg { SymReg(const char* n, void (*f)()); };
#define HARNESS(name) extern "C" void name(); static SymReg reg_##name(#name, name); extern "C" void name()
#else
#define HARNESS(name) extern "C" __attribute__((used)) void name()
#endif
