// Entry points only: bodies come from /repo/include/dottorrent/hasher/*.hpp and /repo/src/hasher/backends/openssl.cpp.
#include <algorithm>
#include <functional>
#include <string>
#include <new>
#include <memory>
#include <stdexcept>
#include <unordered_set>
#include <gsl-lite/gsl-lite.hpp>
#include "dottorrent/hasher/factory.hpp"
#include "hasher/backends/openssl.cpp"
using namespace dottorrent;
typedef openssl_hasher H; typedef single_buffer_hasher B; typedef openssl::message_digest M;
#define ALGS(X) X(md4) X(md5) X(blake2b_512) X(blake2s_256) X(sha1) X(sha224) X(sha256) X(sha384) X(sha512) X(sha3_224) X(sha3_256) X(sha3_384) X(sha3_512) X(shake128) X(shake256) X(ripemd160) X(whirlpool)
#define MDS(X) X(md2) X(md4) X(md5) X(md5_sha1) X(blake2b512) X(blake2s256) X(sha1) X(sha224) X(sha256) X(sha384) X(sha512) X(sha512_224) X(sha512_256) X(sha3_224) X(sha3_256) X(sha3_384) X(sha3_512) X(shake128) X(shake256) X(mdc2) X(ripemd160) X(whirlpool) X(sm3)
extern "C" {
#define ID(x) int(hash_function::x),
#define MID(x) int(openssl::message_digest_algorithm::x),
extern const int vc_hf_ids[]; const int vc_hf_ids[] = { ALGS(ID) };
extern const int vc_md_ids[]; const int vc_md_ids[] = { MDS(MID) };
void vc_any_history(void* h);   // ghost: the object is in the state after an arbitrary history of updates and finishes
void vc_new(int f, H* h) { new (h) H(static_cast<hash_function>(f)); }
void vc_update(int f, H* h, const std::byte* p, std::size_t n) { new (h) H(static_cast<hash_function>(f)); vc_any_history(h); static_cast<B*>(h)->update(std::span<const std::byte>(p, n)); }
void vc_update_sv(int f, H* h, const char* p, std::size_t n) { new (h) H(static_cast<hash_function>(f)); vc_any_history(h); static_cast<B*>(h)->update(std::string_view(p, n)); }
void vc_finalize(int f, H* h, std::byte* p, std::size_t n) { new (h) H(static_cast<hash_function>(f)); vc_any_history(h); static_cast<B*>(h)->finalize_to(std::span<std::byte>(p, n)); }
void vc_destroy(int f, H* h) { new (h) H(static_cast<hash_function>(f)); vc_any_history(h); h->~H(); }
void vc_make(int f, const std::byte* p, std::size_t n, std::byte* o, std::size_t m) { auto h = make_hasher(static_cast<hash_function>(f)); vc_any_history(h.get()); h->update(std::span<const std::byte>(p, n)); h->finalize_to(std::span<std::byte>(o, m)); }
void vc_md_new(int a, M* h) { new (h) M(static_cast<openssl::message_digest_algorithm>(a)); }
void vc_md_update(int a, M* h, const std::byte* p, std::size_t n) { new (h) M(static_cast<openssl::message_digest_algorithm>(a)); vc_any_history(h); h->update(std::span<const std::byte>(p, n)); }
void vc_md_finalize(int a, M* h, std::byte* p, std::size_t n) { new (h) M(static_cast<openssl::message_digest_algorithm>(a)); vc_any_history(h); h->finalize_to(std::span<std::byte>(p, n)); }
void vc_md_reset(int a, M* h) { new (h) M(static_cast<openssl::message_digest_algorithm>(a)); vc_any_history(h); h->reset(); }
void vc_md_destroy(int a, M* h) { new (h) M(static_cast<openssl::message_digest_algorithm>(a)); vc_any_history(h); h->~M(); }
#define MK(x) void vc_hash_##x(const std::byte* p, std::size_t n, std::byte* o) { auto r = make_hash<hash_function::x>(std::span<const std::byte>(p, n)); std::copy(r.begin(), r.end(), o); }
ALGS(MK)
}
