// Entry points only: every function body verified below comes from /repo/include/dottorrent/percent_encoding.hpp.
#include <algorithm>
#include <functional>
#include <string>
#include <new>
#include "dottorrent/percent_encoding.hpp"
using namespace dottorrent::detail;
extern "C" {
void vc_pct_enc_it(const char* p, std::size_t n, char* out) { percent_encode(p, p + n, out); }
void vc_pct_enc(const char* p, std::size_t n, std::string* out) { new (out) std::string(percent_encode(std::string_view(p, n))); }
unsigned vc_pct_dec_it(const char* p, std::size_t n, char* out) { return unsigned(percent_decode(p, p + n, out)); }
void vc_pct_dec(const char* p, std::size_t n, std::string* out) { new (out) std::string(percent_decode(std::string_view(p, n))); }
std::size_t vc_pct_char(char c, char* out) { return percent_encode_char(c, out); }
bool vc_is_unreserved(char c) { return is_unreserved(c); }
bool vc_is_numeric(char c) { return is_numeric(c); }
bool vc_is_alpha(char c) { return is_alpha(c); }
bool vc_is_alnum(char c) { return is_alphanumerical(c); }
bool vc_is_reserved(char c) { return is_reserved_character(c); }
}
