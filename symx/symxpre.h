// forced include of the symbolic build: std::string members are instantiated (and thereby instrumented) instead of taken from libstdc++.so
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
#define SYMX_SYMBOLIC 1
