// Entry points only: every function body verified below comes from /repo/include/dottorrent/hex.hpp.
#include <algorithm>
#include <functional>
#include <string>
#include <new>
#include "dottorrent/hex.hpp"
using namespace dottorrent;
extern "C" {
void vc_to_hex(const std::byte* p, std::size_t n, std::string* out) { new (out) std::string(to_hexadecimal_string(std::span<const std::byte>(p, n))); }
char* vc_to_hex_it(const std::byte* p, std::size_t n, char* out) { return to_hexadecimal_string(out, std::span<const std::byte>(p, n)); }
void vc_from_hex_it(const char* p, std::size_t n, std::byte* out) { from_hexadecimal_string(out, std::string_view(p, n)); }
#define FROMHEX(N) bool vc_from_hex_##N(const char* p, std::size_t n, std::byte* out) { \
    auto r = from_hexadecimal_string<N>(std::string_view(p, n)); if (!r) return false; for (std::size_t i = 0; i < N; ++i) out[i] = (*r)[i]; return true; }
FROMHEX(1) FROMHEX(2) FROMHEX(16) FROMHEX(20) FROMHEX(28) FROMHEX(32) FROMHEX(48) FROMHEX(64)
bool vc_hex_to_byte(char a, char b, std::byte* out) { return detail::hex_to_byte(a, b, *out); }
bool vc_hex_to_byte_sv(const char* p, std::size_t n, std::byte* out) { return detail::hex_to_byte(std::string_view(p, n), *out); }
void vc_byte_to_hex(std::byte b, char* out) { detail::byte_to_hex(b, out); }
void vc_byte_to_hex_up(std::byte b, char* out) { detail::byte_to_hex_uppercase(b, out); }
}
