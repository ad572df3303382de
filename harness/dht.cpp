// Entry points only: bodies come from /repo/include/dottorrent/dht_node.hpp.
#include <string>
#include <string_view>
#include <new>
#include <compare>
#include <fmt/format.h>
#include "dottorrent/dht_node.hpp"
using namespace dottorrent;
typedef dht_node N;
extern "C" {
extern const unsigned long vc_port_off, vc_url_off;
const unsigned long vc_url_off = offsetof(N, url), vc_port_off = offsetof(N, port);
void vc_make(N* o, const char* p, std::size_t n, std::uint16_t port) { new (o) N(std::string_view(p, n), port); }
void vc_copy(N* o, const N* a) { new (o) N(*a); }
void vc_move(N* o, N* a) { new (o) N(std::move(*a)); }
void vc_assign(N* o, const N* a) { *o = *a; }
void vc_massign(N* o, N* a) { *o = std::move(*a); }
bool vc_eq(const N* a, const N* b) { return *a == *b; }
bool vc_ne(const N* a, const N* b) { return *a != *b; }
bool vc_lt(const N* a, const N* b) { return *a < *b; }
int vc_cmp(const N* a, const N* b) { auto r = *a <=> *b; return r < 0 ? -1 : r > 0 ? 1 : 0; }
void vc_str(const N* a, std::string* o) { new (o) std::string(static_cast<std::string>(*a)); }
const std::string* vc_get0(const N* a) { return &get<0>(*a); }
const std::uint16_t* vc_get1(const N* a) { return &get<1>(*a); }
std::string* vc_mget0(N* a) { return &get<0>(*a); }
std::uint16_t* vc_mget1(N* a) { return &get<1>(*a); }
}
