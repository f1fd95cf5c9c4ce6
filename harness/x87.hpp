// Selects the library's x87 control back end on x86-64 (compile with -mfpmath=387 -DX87): the library chooses
// its back end by architecture macros, so they are switched while its selection header is read.
#pragma once
#include <boost/config.hpp>
#include <boost/config/no_tr1/cmath.hpp>
#include <boost/limits.hpp>
#include <boost/cstdint.hpp>
#include <boost/detail/fenv.hpp>
#include <cstdlib>
#include <string>
#include <iosfwd>
#include <stdexcept>
#include <cassert>
#include <boost/numeric/interval/rounding.hpp>
#include <boost/numeric/interval/rounded_arith.hpp>
#pragma push_macro("__x86_64__")
#undef __x86_64__
#define __i386__ 1
#include <boost/numeric/interval/hw_rounding.hpp>
#undef __i386__
#pragma pop_macro("__x86_64__")
