// Makes the compiler emit the inline members of var so that they can be
// analysed; never linked or run.
#include "lube/var.h"
#include "lube/regex.h"
using namespace libube;
typedef var (var::*bin)(var) const;
typedef var& (var::*upd)(var);
typedef var (var::*una)();
typedef bool (var::*cmp)(var) const;
bin probe_bin[] = {&var::operator+, &var::operator-, &var::operator*, &var::operator/};
upd probe_upd[] = {&var::operator+=, &var::operator-=, &var::operator*=, &var::operator/=};
var (var::*probe_neg)() const = &var::operator-;
una probe_una[] = {
    &var::floor, &var::sin, &var::cos, &var::sqrt, &var::log, &var::exp,
    &var::real, &var::imag, &var::abs, &var::arg, &var::norm, &var::transpose,
    &var::toupper, &var::tolower, &var::strip, &var::top
};
var (var::*probe_pow)(var) = &var::pow;
cmp probe_cmp[] = {&var::operator==, &var::operator>, &var::operator<=, &var::operator>=};
upd probe_app = &var::append;
var (var::*probe_comma)(var) = &var::operator,;
var (var::*probe_ix)(int) const = &var::operator[];
var& (var::*probe_adv)(int) = &var::advance;
bool probe_bool(const var& v) { return static_cast<bool>(v); }
