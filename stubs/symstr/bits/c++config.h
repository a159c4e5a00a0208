// verified build only: std::string is instantiated here instead of taken from the library binary, so that its code is seen
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
