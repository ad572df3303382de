// Entry points only: bodies come from /repo/include/dottorrent/{literals,utils}.hpp.
#include <algorithm>
#include <functional>
#include <string>
#include <gsl-lite/gsl-lite.hpp>
#include "dottorrent/literals.hpp"
#include "dottorrent/utils.hpp"
using namespace dottorrent; typedef unsigned long long U;
extern "C" {
#define LIT(X) std::size_t vc_lit_##X(U v) { return literals::operator""_##X(v); }
LIT(KiB) LIT(KB) LIT(MiB) LIT(MB) LIT(GiB) LIT(GB) LIT(TiB) LIT(TB) LIT(bits)
U vc_div_ceil(U x, U y) { return detail::div_ceil(x, y); }
U vc_log2_floor(U x) { return detail::log2_floor(x); }
U vc_log2_ceil(U x) { return detail::log2_ceil(x); }
}
