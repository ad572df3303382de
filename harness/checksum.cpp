// Entry points only: every function body verified below comes from /repo/include/dottorrent/checksum.hpp, hash.hpp, hex.hpp, hash_function.hpp.
#include <gsl-lite/gsl-lite.hpp>
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <span>
#include <compare>
#include <tuple>
#include <vector>
#include <new>
#include "dottorrent/hash_function.hpp"
#include "dottorrent/checksum.hpp"
using namespace dottorrent;
struct Obs { unsigned alg; const char* name; std::size_t nlen; std::size_t size; const std::byte* val; std::size_t vlen; std::byte* mval; std::size_t mlen; };
static inline void obs(checksum* c, Obs* o) { const checksum* k = c; o->alg = static_cast<unsigned>(k->algorithm()); auto n = k->name(); o->name = n.data(); o->nlen = n.size(); o->size = k->size(); auto v = k->value(); o->val = v.data(); o->vlen = v.size(); auto w = c->value(); o->mval = w.data(); o->mlen = w.size(); }
typedef std::span<const std::byte> SB; typedef std::string_view SV;
extern "C" {
extern const unsigned vc_ids[17];
const unsigned vc_ids[17] = { unsigned(hash_function::md4), unsigned(hash_function::md5), unsigned(hash_function::blake2b_512), unsigned(hash_function::blake2s_256), unsigned(hash_function::sha1), unsigned(hash_function::sha224), unsigned(hash_function::sha256), unsigned(hash_function::sha384), unsigned(hash_function::sha512), unsigned(hash_function::sha3_224), unsigned(hash_function::sha3_256), unsigned(hash_function::sha3_384), unsigned(hash_function::sha3_512), unsigned(hash_function::shake128), unsigned(hash_function::shake256), unsigned(hash_function::ripemd160), unsigned(hash_function::whirlpool) };
void vc_key(const char* p, std::size_t n, const std::byte* q, std::size_t m, Obs* o) { auto c = make_checksum(SV(p, n), SB(q, m)); obs(c.release(), o); }
void vc_keys(const char* p, std::size_t n, const char* q, std::size_t m, Obs* o) { auto c = make_checksum(SV(p, n), SV(q, m)); obs(c.release(), o); }
void vc_key0(const char* p, std::size_t n, Obs* o) { auto c = make_checksum(SV(p, n)); obs(c.release(), o); }
void vc_keyh(const char* p, std::size_t n, const char* q, std::size_t m, Obs* o) { auto c = make_checksum_from_hex(SV(p, n), SV(q, m)); obs(c.release(), o); }
void vc_fn(unsigned f, const std::byte* q, std::size_t m, Obs* o) { auto c = make_checksum(static_cast<hash_function>(f), SB(q, m)); obs(c.release(), o); }
void vc_fns(unsigned f, const char* q, std::size_t m, Obs* o) { auto c = make_checksum(static_cast<hash_function>(f), SV(q, m)); obs(c.release(), o); }
void vc_fn0(unsigned f, Obs* o) { auto c = make_checksum(static_cast<hash_function>(f)); obs(c.release(), o); }
void vc_fnh(unsigned f, const char* q, std::size_t m, Obs* o) { auto c = make_checksum_from_hex(static_cast<hash_function>(f), SV(q, m)); obs(c.release(), o); }
void vc_gen(const char* p, std::size_t n, const std::byte* q, std::size_t m, Obs* o) { auto c = new generic_checksum(SV(p, n), SB(q, m)); obs(c, o); }
void vc_genc(const char* p, std::size_t n, const char* q, std::size_t m, Obs* o) { auto c = new generic_checksum(SV(p, n), std::span<const char>(q, m)); obs(c, o); }
void vc_unhex(const char* q, std::size_t m, std::vector<std::byte>* o) { new (o) std::vector<std::byte>(); from_hexadecimal_string(std::back_inserter(*o), SV(q, m)); }
bool vc_eqk(const char* p, std::size_t n, const std::byte* q, std::size_t m, const char* r, std::size_t k, const std::byte* s, std::size_t l) { generic_checksum a(SV(p, n), SB(q, m)), b(SV(r, k), SB(s, l)); return a == b; }
int vc_cmpk(const char* p, std::size_t n, const std::byte* q, std::size_t m, const char* r, std::size_t k, const std::byte* s, std::size_t l) { generic_checksum a(SV(p, n), SB(q, m)), b(SV(r, k), SB(s, l)); auto x = a <=> b; return x < 0 ? -1 : x > 0 ? 1 : x == 0 ? 0 : 2; }
bool vc_eqs(const std::byte* q, const std::byte* s) { sha1_checksum a(SB(q, 20)), b(SB(s, 20)); return static_cast<checksum&>(a) == b; }
int vc_cmps(const std::byte* q, const std::byte* s) { sha1_checksum a(SB(q, 20)), b(SB(s, 20)); auto x = static_cast<checksum&>(a) <=> b; return x < 0 ? -1 : x > 0 ? 1 : x == 0 ? 0 : 2; }
bool vc_eqx(const std::byte* q, const std::byte* s) { sha256_checksum a(SB(q, 32)); sha3_256_checksum b(SB(s, 32)); return static_cast<checksum&>(a) == b; }
int vc_cmpx(const std::byte* q, const std::byte* s) { sha256_checksum a(SB(q, 32)); sha3_256_checksum b(SB(s, 32)); auto x = static_cast<checksum&>(a) <=> b; return x < 0 ? -1 : x > 0 ? 1 : x == 0 ? 0 : 2; }
void vc_hexs(const std::byte* q, std::string* o) { sha1_checksum a(SB(q, 20)); new (o) std::string(static_cast<checksum&>(a).hex_string()); }
void vc_hexg(const char* p, std::size_t n, const std::byte* q, std::size_t m, std::string* o) { generic_checksum a(SV(p, n), SB(q, m)); new (o) std::string(static_cast<checksum&>(a).hex_string()); }
}
