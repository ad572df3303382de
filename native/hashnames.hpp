#pragma once
#include <functional>
#include <unordered_set>
#include <memory>
#include <span>
#include <gsl-lite/gsl-lite.hpp>
#include "drv.hpp"
#include "dottorrent/hasher/factory.hpp"
#include "hasher/backends/openssl.cpp"
using namespace drv; using namespace dottorrent;
struct HF { const char* n; hash_function f; const char* md; size_t k; };
static const HF hfs[] = {{"md4", hash_function::md4, "MD4", 16}, {"md5", hash_function::md5, "MD5", 16}, {"blake2b_512", hash_function::blake2b_512, "BLAKE2b512", 64}, {"blake2s_256", hash_function::blake2s_256, "BLAKE2s256", 32},
    {"sha1", hash_function::sha1, "SHA1", 20}, {"sha224", hash_function::sha224, "SHA224", 28}, {"sha256", hash_function::sha256, "SHA256", 32}, {"sha384", hash_function::sha384, "SHA384", 48}, {"sha512", hash_function::sha512, "SHA512", 64},
    {"sha3_224", hash_function::sha3_224, "SHA3-224", 28}, {"sha3_256", hash_function::sha3_256, "SHA3-256", 32}, {"sha3_384", hash_function::sha3_384, "SHA3-384", 48}, {"sha3_512", hash_function::sha3_512, "SHA3-512", 64},
    {"shake128", hash_function::shake128, "SHAKE128", 16}, {"shake256", hash_function::shake256, "SHAKE256", 32}, {"ripemd160", hash_function::ripemd160, "RIPEMD160", 20}, {"whirlpool", hash_function::whirlpool, "whirlpool", 64}};
using A = openssl::message_digest_algorithm;
struct MDA { const char* n; A a; const char* md; size_t k; };
static const MDA mds[] = {{"md2", A::md2, "MD2", 16}, {"md4", A::md4, "MD4", 16}, {"md5", A::md5, "MD5", 16}, {"md5_sha1", A::md5_sha1, "MD5-SHA1", 36}, {"blake2b512", A::blake2b512, "BLAKE2b512", 64}, {"blake2s256", A::blake2s256, "BLAKE2s256", 32},
    {"sha1", A::sha1, "SHA1", 20}, {"sha224", A::sha224, "SHA224", 28}, {"sha256", A::sha256, "SHA256", 32}, {"sha384", A::sha384, "SHA384", 48}, {"sha512", A::sha512, "SHA512", 64}, {"sha512_224", A::sha512_224, "SHA512-224", 28}, {"sha512_256", A::sha512_256, "SHA512-256", 32},
    {"sha3_224", A::sha3_224, "SHA3-224", 28}, {"sha3_256", A::sha3_256, "SHA3-256", 32}, {"sha3_384", A::sha3_384, "SHA3-384", 48}, {"sha3_512", A::sha3_512, "SHA3-512", 64}, {"shake128", A::shake128, "SHAKE128", 16}, {"shake256", A::shake256, "SHAKE256", 32},
    {"mdc2", A::mdc2, "MDC2", 16}, {"ripemd160", A::ripemd160, "RIPEMD160", 20}, {"whirlpool", A::whirlpool, "whirlpool", 64}, {"sm3", A::sm3, "SM3", 32}};
// reference digest straight from the crypto library, by name; nullopt when the library does not offer it
inline std::optional<std::string> ref(const char* md, std::string_view s) {
    auto* m = EVP_get_digestbyname(md); if (!m) { ERR_clear_error(); return {}; }
    unsigned char o[EVP_MAX_MD_SIZE]; unsigned n = 0;
    if (EVP_Digest(s.data(), s.size(), o, &n, m, nullptr) != 1) { ERR_clear_error(); return {}; }
    return std::string(reinterpret_cast<char*>(o), n);
}
inline std::span<const std::byte> by(std::string_view s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size()}; }
