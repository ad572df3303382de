// Entry points only: every function body verified below comes from /repo/include/dottorrent/info_hash.hpp, hash.hpp, hex.hpp.
#include <gsl-lite/gsl-lite.hpp>
#include <algorithm>
#include <functional>
#include <string>
#include <string_view>
#include <span>
#include <compare>
#include <tuple>
#include <new>
#include "dottorrent/info_hash.hpp"
using namespace dottorrent;
typedef info_hash I;
namespace { template <int K> inline I mk(const sha1_hash* a, const sha256_hash* b) { if constexpr (K == 1) return I(*a); else if constexpr (K == 2) return I(*b); else return I(*a, *b); } }
static inline int pv(protocol p) { return p == protocol::v1 ? 1 : p == protocol::v2 ? 2 : p == protocol::hybrid ? 3 : 0; }
static inline int c3(const I& x, const I& y) { auto r = x <=> y; return r < 0 ? -1 : r > 0 ? 1 : 0; }
// everything observable of an info-hash of known version is written to fixed places
static inline int obs(const I& h, char* o1, char* o2, char* t, int* n) {
    int v = pv(h.version());
    if (v & 1) { auto s = h.get_binary(protocol::v1); n[0] = int(s.size()); if (s.size() == 20) for (int i = 0; i < 20; ++i) o1[i] = s[i]; auto w = std::string_view(h.v1()); n[2] = w.data() == s.data() && w.size() == s.size(); }
    if (v & 2) { auto s = h.get_binary(protocol::v2); n[1] = int(s.size()); if (s.size() == 32) for (int i = 0; i < 32; ++i) o2[i] = s[i]; auto w = std::string_view(h.v2()); n[3] = w.data() == s.data() && w.size() == s.size();
                 auto x = h.truncated_v2(); for (int i = 0; i < 20; ++i) t[i] = static_cast<char>(x.data()[i]); }
    return v; }
#define ONE(K) \
int vc_mk_##K(const sha1_hash* a, const sha256_hash* b, char* o1, char* o2, char* t, int* n) { return obs(mk<K>(a, b), o1, o2, t, n); } \
int vc_cp_##K(const sha1_hash* a, const sha256_hash* b, char* o1, char* o2, char* t, int* n) { I h = mk<K>(a, b); I g(h); return obs(g, o1, o2, t, n); } \
int vc_as_##K(const sha1_hash* a, const sha256_hash* b, const sha1_hash* c, const sha256_hash* d, char* o1, char* o2, char* t, int* n) { I h = mk<K>(a, b); I g(*c, *d); g = h; return obs(g, o1, o2, t, n); } \
int vc_at_##K(const sha1_hash* a, const sha256_hash* b, const sha1_hash* c, const sha256_hash* d, char* o1, char* o2, char* t, int* n) { I h = mk<K>(a, b); I g(*c); g = h; return obs(g, o1, o2, t, n); } \
int vc_au_##K(const sha1_hash* a, const sha256_hash* b, const sha1_hash* c, const sha256_hash* d, char* o1, char* o2, char* t, int* n) { I h = mk<K>(a, b); I g(*d); g = h; return obs(g, o1, o2, t, n); } \
bool vc_hc_##K(const sha1_hash* a, const sha256_hash* b, const sha1_hash* c, const sha256_hash* d) { return std::hash<I>{}(mk<K>(a, b)) == std::hash<I>{}(mk<K>(c, d)); } \
void vc_hex1_##K(const sha1_hash* a, const sha256_hash* b, std::string* o) { new (o) std::string(mk<K>(a, b).get_hex(protocol::v1)); } \
void vc_hex2_##K(const sha1_hash* a, const sha256_hash* b, std::string* o) { new (o) std::string(mk<K>(a, b).get_hex(protocol::v2)); }
#define TWO(K, L) \
bool vc_eq_##K##L(const sha1_hash* a, const sha256_hash* b, const sha1_hash* c, const sha256_hash* d) { return mk<K>(a, b) == mk<L>(c, d); } \
bool vc_ne_##K##L(const sha1_hash* a, const sha256_hash* b, const sha1_hash* c, const sha256_hash* d) { return mk<K>(a, b) != mk<L>(c, d); } \
int vc_cmp_##K##L(const sha1_hash* a, const sha256_hash* b, const sha1_hash* c, const sha256_hash* d) { return c3(mk<K>(a, b), mk<L>(c, d)); } \
bool vc_anti_##K##L(const sha1_hash* a, const sha256_hash* b, const sha1_hash* c, const sha256_hash* d) { I x = mk<K>(a, b), y = mk<L>(c, d); return c3(x, y) == -c3(y, x); } \
bool vc_rel_##K##L(const sha1_hash* a, const sha256_hash* b, const sha1_hash* c, const sha256_hash* d) { I x = mk<K>(a, b), y = mk<L>(c, d); int r = c3(x, y); return (x < y) == (r < 0) && (x > y) == (r > 0) && (x <= y) == (r <= 0) && (x >= y) == (r >= 0); }
#define THREE(K, L, M) \
bool vc_tr_##K##L##M(const sha1_hash* a, const sha256_hash* b, const sha1_hash* c, const sha256_hash* d, const sha1_hash* e, const sha256_hash* f) { I x = mk<K>(a, b), y = mk<L>(c, d), z = mk<M>(e, f); return !(c3(x, y) < 0 && c3(y, z) < 0) || c3(x, z) < 0; }
extern "C" {
ONE(1) ONE(2) ONE(3)
TWO(1,1) TWO(1,2) TWO(1,3) TWO(2,1) TWO(2,2) TWO(2,3) TWO(3,1) TWO(3,2) TWO(3,3)
THREE(1,1,1) THREE(2,2,2) THREE(3,3,3) THREE(1,2,3) THREE(1,3,2) THREE(2,1,3) THREE(2,3,1) THREE(3,1,2) THREE(3,2,1)
THREE(1,1,2) THREE(1,1,3) THREE(2,2,1) THREE(2,2,3) THREE(3,3,1) THREE(3,3,2)
THREE(1,2,1) THREE(1,3,1) THREE(2,1,2) THREE(2,3,2) THREE(3,1,3) THREE(3,2,3)
THREE(2,1,1) THREE(3,1,1) THREE(1,2,2) THREE(3,2,2) THREE(1,3,3) THREE(2,3,3)
int vc_data(int v, const char* p, std::size_t n, char* o1, char* o2, char* t, int* k) { return obs(I(static_cast<protocol>(v), std::string_view(p, n)), o1, o2, t, k); }
int vc_data2(const char* p, std::size_t n, const char* q, std::size_t m, char* o1, char* o2, char* t, int* k) { return obs(I(std::string_view(p, n), std::string_view(q, m)), o1, o2, t, k); }
int vc_fh1(const char* p, std::size_t n, char* o1, char* o2, char* t, int* k) { return obs(I::from_hex(protocol::v1, std::string_view(p, n)), o1, o2, t, k); }
int vc_fh2(const char* p, std::size_t n, char* o1, char* o2, char* t, int* k) { return obs(I::from_hex(protocol::v2, std::string_view(p, n)), o1, o2, t, k); }
int vc_fh3(const char* p, std::size_t n, const char* q, std::size_t m, char* o1, char* o2, char* t, int* k) { return obs(I::from_hex(std::string_view(p, n), std::string_view(q, m)), o1, o2, t, k); }
}
