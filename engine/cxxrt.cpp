// libstdc++ members that are otherwise only in the shared library, as bitcode
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <vector>
#include <stdexcept>
template class std::basic_string<char>;
