// after Log.cc: definitions the linker wants
#include "Cycles.cc"
#ifndef PREPROCESSOR_NANOLOG
namespace GeneratedFunctions { size_t numLogIds = 0; }
#endif
