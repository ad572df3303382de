// Entry points only: bodies come from /repo/include/dottorrent/{bitmask_operators,general}.hpp.
#include <algorithm>
#include <functional>
#include <string>
#include <new>
#include <cstdint>
#include <fmt/format.h>
#include "dottorrent/general.hpp"
using namespace dottorrent;
enum class e8 : std::uint8_t {}; enum class e16 : std::int16_t {}; enum class e64 : std::uint64_t {};
DOTTORRENT_ENABLE_BITMASK_OPERATORS(e8); DOTTORRENT_ENABLE_BITMASK_OPERATORS(e16); DOTTORRENT_ENABLE_BITMASK_OPERATORS(e64);
#define OPS(N, E, T) \
T vc_or_##N(T a, T b) { return T(dottorrent::operator|(E(a), E(b))); } T vc_and_##N(T a, T b) { return T(dottorrent::operator&(E(a), E(b))); } \
T vc_xor_##N(T a, T b) { return T(dottorrent::operator^(E(a), E(b))); } T vc_not_##N(T a) { return T(dottorrent::operator~(E(a))); } \
T* vc_aor_##N(T* a, T b) { return reinterpret_cast<T*>(&dottorrent::operator|=(*reinterpret_cast<E*>(a), E(b))); } \
T* vc_aand_##N(T* a, T b) { return reinterpret_cast<T*>(&dottorrent::operator&=(*reinterpret_cast<E*>(a), E(b))); } \
T* vc_axor_##N(T* a, T b) { return reinterpret_cast<T*>(&dottorrent::operator^=(*reinterpret_cast<E*>(a), E(b))); }
extern "C" {
OPS(8, e8, std::uint8_t) OPS(16, e16, std::int16_t) OPS(32, file_attributes, int) OPS(64, e64, std::uint64_t)
void vc_attr_str(int v, std::string* out) { new (out) std::string(to_string(static_cast<file_attributes>(v))); }
int vc_attr_make(const char* p, std::size_t n) { return int(make_file_attributes(std::string_view(p, n))); }
int vc_attr_round(int v) { auto s = to_string(static_cast<file_attributes>(v)); return int(make_file_attributes(s)); }
int vc_hybrid() { return int(protocol::v1 | protocol::v2) == int(protocol::hybrid) && (protocol::hybrid & protocol::v1) == protocol::v1 && (protocol::hybrid & protocol::v2) == protocol::v2 && (protocol::v1 & protocol::v2) == protocol::none; }
}
