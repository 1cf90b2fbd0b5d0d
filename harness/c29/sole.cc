// A translation unit that includes one public header and nothing else before it.
#include USE_INC
#include "use.hpp"
extern "C" int USE_ENTRY(const double*in,double*out){ return USE_NS::USE_FUN(in,out); }
