// forced include: instantiate std::string etc. from their headers instead of linking libstdc++'s copies
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
