#include <gsl-lite/gsl-lite.hpp>
#include "drv.hpp"
#include <compare>
#include <tuple>
#include "dottorrent/hash.hpp"
using namespace drv; using namespace dottorrent;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static std::string str(const std::byte* p, size_t n) { return std::string(reinterpret_cast<const char*>(p), n); }
template <class F> static bool thrown(F f) { try { f(); return false; } catch (const std::invalid_argument&) { return true; } }
static std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'F') c = char(c + 32); return s; }
template <class T> static void holds(const T& h, const std::string& s) {
    req(h.size() == s.size() && str(h.data(), h.size()) == s, "bytes"); req(std::string(std::string_view(h)) == s, "view"); auto sp = std::span<const std::byte>(h); req(str(sp.data(), sp.size()) == s, "span");
    req(size_t(h.end() - h.begin()) == s.size() && &*h.begin() == h.data() && h.value().data() == h.data(), "range"); auto x = h.hex_string(); req(x == (s.empty() ? "" : hex(s)), "printed form"); req(make_hash_from_hex<T>(x) == h, "parses back"); }
template <class T> static void go(const args& a, size_t N, hash_function f) {
    req(T::size_bytes == N && T::size() == N && T::size_bits == 8 * N && T::size_hex == 2 * N && T::algorithm == f, "constants");
    const auto& k = a[0];
    if (k == "def") { alignas(T) char m[sizeof(T)]; std::memset(m, 0xa5, sizeof m); T* p = new (m) T(); holds(*p, std::string(N, '\0')); return; }
    std::string s = unhex(a.at(2)); buf b(s); auto bp = reinterpret_cast<std::byte*>(b.p.get());
    if (k == "from") { bool bad = s.size() != N;
        req(thrown([&] { holds(T(b.sv()), s); }) == bad, "text of another length"); req(thrown([&] { holds(T(std::span<const std::byte>(bp, b.n)), s); }) == bad, "span"); req(thrown([&] { holds(T(std::span<std::byte>(bp, b.n)), s); }) == bad, "mutable span"); req(thrown([&] { holds(T(std::span<const char>(b.p.get(), b.n)), s); }) == bad, "char span"); return; }
    if (k == "parse") { bool ok = s.size() == 2 * N; for (char c : s) if (!(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'f') && !(c >= 'A' && c <= 'F')) ok = false;
        req(thrown([&] { holds(make_hash_from_hex<T>(b.sv()), unhex(lower(s))); }) == !ok, "parse"); return; }
    T x(b.sv()); holds(x, s); { T y(x); holds(y, s); T z; z = x; holds(z, s); T w(x.value()); holds(w, s); req(y == x && std::hash<T>{}(y) == std::hash<T>{}(x), "copy"); using B = basic_hash<T::size_bytes>; req(std::hash<B>{}(static_cast<const B&>(y)) == std::hash<B>{}(static_cast<const B&>(x)), "hash of base"); }
    if (k == "cmp") { std::string t = unhex(a.at(3)); T y{std::string_view(t)}; int w = sgn(std::memcmp(s.data(), t.data(), N)); auto r = x <=> y; req((r < 0 ? -1 : r > 0) == w, "<=>");
        req((x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x > y) == (w > 0) && (x <= y) == (w <= 0) && (x >= y) == (w >= 0), "relations"); if (!w) req(std::hash<T>{}(x) == std::hash<T>{}(y), "hash code"); }
}
#define TYPES(X) X(md4, 16) X(md5, 16) X(blake2b_512, 64) X(blake2s_256, 32) X(sha1, 20) X(sha224, 28) X(sha256, 32) X(sha384, 48) X(sha512, 64) X(sha3_224, 28) X(sha3_256, 32) X(sha3_384, 48) X(sha3_512, 64) X(shake128, 16) X(shake256, 32) X(ripemd160, 20) X(whirlpool, 64)
static const std::pair<const char*, size_t> names[] = {
#define X(n, k) {#n, k},
TYPES(X)
#undef X
};
void run_case(const args& a) {
#define X(n, k) if (a.at(1) == #n) return go<n##_hash>(a, k, hash_function::n);
TYPES(X)
#undef X
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    for (auto& [n, k] : names) { t({"def", n}); for (size_t l = 0; l < 140; ++l) { t({"from", n, hex(r.bytes(l))}); t({"parse", n, hex(r.from("0123456789abcdefABCDEF", l))}); }
        for (size_t i = 0; i < 2 * k; ++i) for (char c : {'g', '/', ':', '@', 'G', '`', '\0', ' ', '\x80', '\xff'}) { auto s = r.from("0123456789abcdefABCDEF", 2 * k); s[i] = c; t({"parse", n, hex(s)}); }
        for (size_t i = 0; i < k; ++i) { auto s = r.bytes(k), u = s; u[i] = char(u[i] ^ 0x80); t({"cmp", n, hex(s), hex(u)}); u[i] = char(s[i] + 1); t({"cmp", n, hex(s), hex(u)}); } }
    while (more()) { auto& [n, k] = names[r(std::size(names))]; auto s = r.bytes(k), u = s; if (r.coin()) u = r.bytes(k); else if (r.coin()) { u[r(k)] = char(r(256)); u[r(k)] = char(r(256)); } t({"cmp", n, hex(s), hex(u)}); }
}
