// non-template (C++11) string constructors that libstdc++ exports
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
template class std::basic_string<char>;
