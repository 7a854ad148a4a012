// Everything that libstdc++ would leave to its shared library's template instantiations is instantiated in the module instead.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
