// Included first in the "sched" build variant: std::string is compiled with the code that uses it, instrumented,
// instead of taken from the uninstrumented library
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
