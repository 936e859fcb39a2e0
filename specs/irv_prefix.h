// Included ahead of every translation unit that is compiled for the verifier: the standard library's
// templates are instantiated in the module, so that their bodies are there to execute.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
