// Included before everything else in units that want the C++ library's templates (streams, strings) compiled
// into the simulated program, hence instrumented, instead of taken from the shared library.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
