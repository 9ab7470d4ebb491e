// Makes the compiler emit the inline constructors of the transforms so that
// they can be analysed; never linked or run.
#include "lube/dft.h"
using namespace libube;
void probe_dft(int n, var t) { DFT f(n, t); }
void probe_idft(int n, var t) { IDFT f(n, t); }
void probe_dft1(int n) { DFT f(n); }
void probe_idft1(int n) { IDFT f(n); }
