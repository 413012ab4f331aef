// Instantiations declared in re_decl.h. Linked last, so that every function
// that is also compiled elsewhere is taken with its instrumentation.
#define RE_INST
#include "re_decl.h"
