// Entry points only: every function body verified below comes from /repo/include/dottorrent/hash.hpp and hex.hpp.
#include <gsl-lite/gsl-lite.hpp>
#include <algorithm>
#include <functional>
#include <string>
#include <string_view>
#include <span>
#include <compare>
#include <tuple>
#include <new>
#include "dottorrent/hash.hpp"
using namespace dottorrent;
#define ENTRIES(T) \
void vc_def_##T(T* o) { new (o) T(); } \
void vc_sv_##T(T* o, const char* p, std::size_t n) { new (o) T(std::string_view(p, n)); } \
void vc_spb_##T(T* o, const std::byte* p, std::size_t n) { new (o) T(std::span<const std::byte>(p, n)); } \
void vc_spm_##T(T* o, std::byte* p, std::size_t n) { new (o) T(std::span<std::byte>(p, n)); } \
void vc_spc_##T(T* o, const char* p, std::size_t n) { new (o) T(std::span<const char>(p, n)); } \
void vc_arr_##T(T* o, const std::array<std::byte, T::size_bytes>* a) { new (o) T(*a); } \
void vc_copy_##T(T* o, const T* a) { new (o) T(*a); } \
void vc_asg_##T(T* o, const T* a) { *o = *a; } \
void vc_hexs_##T(const T* a, std::string* o) { new (o) std::string(a->hex_string()); } \
void vc_parse_##T(T* o, const char* p, std::size_t n) { new (o) T(make_hash_from_hex<T>(std::string_view(p, n))); } \
bool vc_eq_##T(const T* a, const T* b) { return *a == *b; } \
bool vc_ne_##T(const T* a, const T* b) { return *a != *b; } \
bool vc_lt_##T(const T* a, const T* b) { return *a < *b; } \
bool vc_gt_##T(const T* a, const T* b) { return *a > *b; } \
bool vc_le_##T(const T* a, const T* b) { return *a <= *b; } \
bool vc_ge_##T(const T* a, const T* b) { return *a >= *b; } \
int vc_cmp_##T(const T* a, const T* b) { auto r = *a <=> *b; return r < 0 ? -1 : r > 0 ? 1 : 0; } \
const char* vc_tosv_##T(const T* a, std::size_t* n) { auto s = std::string_view(*a); *n = s.size(); return s.data(); } \
const std::byte* vc_tosp_##T(const T* a, std::size_t* n) { auto s = std::span<const std::byte>(*a); *n = s.size(); return s.data(); } \
const std::byte* vc_range_##T(const T* a, std::size_t* n) { *n = std::size_t(a->end() - a->begin()); return a->begin(); } \
std::byte* vc_mrange_##T(T* a, std::size_t* n) { *n = std::size_t(a->end() - a->begin()); return a->begin(); } \
const std::byte* vc_value_##T(const T* a, std::size_t* n) { *n = a->value().size(); return a->value().data(); } \
const std::byte* vc_data_##T(const T* a, std::size_t* n) { *n = a->size(); return a->data(); } \
std::byte* vc_mdata_##T(T* a, std::size_t* n) { *n = T::size(); return a->data(); } \
bool vc_hash_##T(const T* a, const T* b) { return std::hash<T>{}(*a) == std::hash<T>{}(*b); } \
bool vc_bhash_##T(const T* a, const T* b) { return std::hash<basic_hash<T::size_bytes>>{}(*a) == std::hash<basic_hash<T::size_bytes>>{}(*b); }
#define CONSTS(T) \
extern const unsigned long vc_k_##T[5]; \
const unsigned long vc_k_##T[5] = { T::size_bytes, T::size_bits, T::size_hex, static_cast<unsigned long>(T::algorithm), sizeof(T) }; \
unsigned long vc_alg_##T() { return static_cast<unsigned long>(T::algorithm) == static_cast<unsigned long>(hash_function::VC_NAME(T)); } \
unsigned long vc_bytes_##T() { return T::size(); }
#define VC_NAME(T) VC_N_##T
#define VC_N_md4_hash md4
#define VC_N_md5_hash md5
#define VC_N_blake2b_512_hash blake2b_512
#define VC_N_blake2s_256_hash blake2s_256
#define VC_N_sha1_hash sha1
#define VC_N_sha224_hash sha224
#define VC_N_sha256_hash sha256
#define VC_N_sha384_hash sha384
#define VC_N_sha512_hash sha512
#define VC_N_sha3_224_hash sha3_224
#define VC_N_sha3_256_hash sha3_256
#define VC_N_sha3_384_hash sha3_384
#define VC_N_sha3_512_hash sha3_512
#define VC_N_shake128_hash shake128
#define VC_N_shake256_hash shake256
#define VC_N_ripemd160_hash ripemd160
#define VC_N_whirlpool_hash whirlpool
extern "C" {
ENTRIES(md5_hash) ENTRIES(sha1_hash) ENTRIES(sha224_hash) ENTRIES(sha256_hash) ENTRIES(sha384_hash) ENTRIES(sha512_hash)
ENTRIES(md4_hash) ENTRIES(blake2b_512_hash) ENTRIES(blake2s_256_hash) ENTRIES(sha3_224_hash) ENTRIES(sha3_256_hash) ENTRIES(sha3_384_hash) ENTRIES(sha3_512_hash)
ENTRIES(shake128_hash) ENTRIES(shake256_hash) ENTRIES(ripemd160_hash) ENTRIES(whirlpool_hash)
CONSTS(md5_hash) CONSTS(sha1_hash) CONSTS(sha224_hash) CONSTS(sha256_hash) CONSTS(sha384_hash) CONSTS(sha512_hash)
CONSTS(md4_hash) CONSTS(blake2b_512_hash) CONSTS(blake2s_256_hash) CONSTS(sha3_224_hash) CONSTS(sha3_256_hash) CONSTS(sha3_384_hash) CONSTS(sha3_512_hash)
CONSTS(shake128_hash) CONSTS(shake256_hash) CONSTS(ripemd160_hash) CONSTS(whirlpool_hash)
}
