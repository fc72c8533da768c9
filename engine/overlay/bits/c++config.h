// Instantiate the standard library templates in the translation unit, so the
// pass sees them (they would otherwise come precompiled from libstdc++.so).
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
