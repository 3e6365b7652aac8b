// Symbolic build only: the configuration header switches the precompiled instantiations of the standard library's
// templates back on; without them strings and streams are instantiated from the headers, where the engine sees them.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
