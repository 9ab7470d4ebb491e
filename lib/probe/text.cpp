// Makes the compiler emit the inline text methods of var so that they can be
// analysed; never linked or run.
#include "lube/var.h"
#include "lube/string.h"
using namespace libube;
var probe_toupper(var& v) { return v.toupper(); }
var probe_tolower(var& v) { return v.tolower(); }
var probe_strip(var& v) { return v.strip(); }
