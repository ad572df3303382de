// Entry points only: bodies come from /repo/include/dottorrent/hash_function.hpp.
#include <algorithm>
#include <functional>
#include <string>
#include <tuple>
#include "dottorrent/hash_function.hpp"
using namespace dottorrent;
extern "C" {
void vc_hf_name(int f, const char** p, std::size_t* n) { auto s = to_string(static_cast<hash_function>(f)); *p = s.data(); *n = s.size(); }
bool vc_hf_is_name(const char* p, std::size_t n) { return is_hash_function_name(std::string_view(p, n)); }
bool vc_hf_make(const char* p, std::size_t n, int* f) { auto r = make_hash_function(std::string_view(p, n)); if (!r) return false; *f = int(*r); return true; }
bool vc_hf_round(int f) { auto r = make_hash_function(to_string(static_cast<hash_function>(f))); return r && *r == static_cast<hash_function>(f); }
}
