#include "drv.hpp"
#include <gsl-lite/gsl-lite.hpp>
#include "dottorrent/literals.hpp"
#include "dottorrent/utils.hpp"
using namespace drv; using namespace dottorrent; typedef unsigned __int128 W;
void run_case(const args& a) {
    auto num = [&](size_t i) { return std::strtoull(a.at(i).c_str(), 0, 10); };
    if (a[0] == "lit") { auto v = num(2); const std::string& u = a[1]; using namespace literals;
#define L(X, K) else if (u == #X) { if (W(v) * W(K) >> 64) return; req(operator""_##X(v) == v * (K), "unit " #X); }
        if (u == "bits") req(operator""_bits(v) == v / 8, "bits"); L(KiB, 1024ull) L(KB, 1000ull) L(MiB, 1048576ull) L(MB, 1000000ull) L(GiB, 1073741824ull) L(GB, 1000000000ull) L(TiB, 1099511627776ull) L(TB, 1000000000000ull) else fail("unit"); }
    else if (a[0] == "lit_bits") { req(literals::operator""_bits(num(1)) == num(1) / 8, "bits"); }
    else if (a[0] == "div") { auto x = num(1), y = num(2); if (!y) return; auto r = detail::div_ceil(x, y); req(W(r) * y >= x && (r == 0 || W(r - 1) * y < x), "div_ceil"); }
    else if (a[0] == "log2_floor") { auto x = num(1); if (!x) return; auto r = detail::log2_floor(x); req(r < 64 && (W(1) << r) <= x && (W(1) << (r + 1)) > x, "log2_floor"); }
    else if (a[0] == "log2_ceil") { auto x = num(1); if (!x || x > (1ull << 63)) return; auto r = detail::log2_ceil(x); req(r < 64 && (W(1) << r) >= x && (r == 0 || (W(1) << (r - 1)) < x), "log2_ceil"); }
    else fail("unknown case");
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    auto S = [](uint64_t x) { return std::to_string(x); };
    auto all = [&](uint64_t x) { for (const char* u : {"KiB", "KB", "MiB", "MB", "GiB", "GB", "TiB", "TB", "bits"}) t({"lit", u, S(x)}); t({"log2_floor", S(x)}); t({"log2_ceil", S(x)}); };
    for (uint64_t i = 0; i < 3000; ++i) all(i); for (int b = 0; b < 64; ++b) for (int d = -2; d <= 2; ++d) { uint64_t x = (1ull << b) + d; all(x); for (int c = 0; c < 64; ++c) { t({"div", S(x), S(1ull << c)}); t({"div", S(x), S((1ull << c) + 1)}); t({"div", S(x), S((1ull << c) - 1)}); } }
    for (uint64_t i = 0; i < 70; ++i) for (uint64_t j = 1; j < 70; ++j) t({"div", S(i), S(j)});
    while (more()) { uint64_t x = r.g() >> r(64), y = r.g() >> r(64); all(x); t({"div", S(x), S(y)}); t({"div", S(y * r(100)), S(y)}); }
}
