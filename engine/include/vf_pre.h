// Makes std::string's members visible as IR (instead of calls into libstdc++.so).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
