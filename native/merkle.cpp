#include <gsl-lite/gsl-lite.hpp>
#include "drv.hpp"
#include <compare>
#include <memory>
#include <mutex>
#include <new>
#include <shared_mutex>
#include <span>
#include <tuple>
#include <openssl/sha.h>
#include "dottorrent/merkle_tree.hpp"
using namespace drv; using namespace dottorrent;
using T = merkle_tree<hash_function::sha256>; using V = T::value_type;
static V val(const std::string& s) { V v; std::memcpy(v.data(), s.data(), 32); return v; }
static std::string str(const V& v) { return std::string(reinterpret_cast<const char*>(v.data()), 32); }
static std::string sha(const std::string& s) { std::string r(32, 0); SHA256(reinterpret_cast<const unsigned char*>(s.data()), s.size(), reinterpret_cast<unsigned char*>(r.data())); return r; }
using M = std::vector<std::string>;     // the nodes, root first
static size_t height(const M& m) { size_t h = 0; while ((size_t(2) << h) - 1 < m.size()) ++h; return h; }
static void is(T& t, const M& m, const char* w) {
    const T& c = t; size_t h = height(m), N = size_t(1) << h; req(c.node_count() == m.size(), std::string(w) + ": node count"); req(c.leaf_count() == N, std::string(w) + ": leaf count"); req(c.tree_height() == h, std::string(w) + ": height");
    req(str(t.root()) == m[0], std::string(w) + ": root"); req(t.has_root() == (m[0] != std::string(32, '\0')), std::string(w) + ": has root");
    for (size_t i = 0; i < N; ++i) req(str(c.get_leaf(i)) == m[N - 1 + i], std::string(w) + ": leaf");
    for (size_t l = 0; l <= h; ++l) { auto s = t.get_layer(l); req(s.size() == size_t(1) << l, std::string(w) + ": layer size"); for (size_t i = 0; i < s.size(); ++i) { auto& e = m[(size_t(1) << l) - 1 + i]; req(str(s[i]) == e && str(c.get_node(l, i)) == e, std::string(w) + ": node"); } }
}
void run_case(const args& a) {
    size_t n = std::stoul(a.at(1)), N = 1; bool big = n > (size_t(1) << 57);
    if (a[0] == "big") { bool thrown = false; try { T t(n); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::length_error&) { thrown = true; } req(thrown, "more leaves than memory holds"); (void) big; return; }
    while (N < n) N *= 2; if (n == 0) N = 2;
    Rng r(std::stoull(a.at(2))); auto init = r.coin() ? std::string(32, 0) : r.bytes(32); M m(2 * N - 1, std::string(32, '\0')); T t(n); is(t, m, "construction"); { T u(n, val(init)); M q(2 * N - 1, init); is(u, q, "construction with a value"); u.set_leaf_nodes(n); is(u, m, "emptied"); t.set_leaf_nodes(n, val(init)); is(t, q, "reset"); m = q; }
    for (size_t k = r(2 * N + 2); k--;) { size_t i = r(N); auto v = r.bytes(32); t.set_leaf(i, val(v)); m[N - 1 + i] = v; } if (r.coin()) for (size_t i = 0; i < N; ++i) { auto v = r.bytes(32); t.set_leaf(i, val(v)); m[N - 1 + i] = v; } is(t, m, "leaves set");
    if (r.coin()) t.update(); else { auto h = make_hasher(hash_function::sha256); t.update(*h); } for (size_t p = N - 1; p-- > 0;) m[p] = sha(m[2 * p + 1] + m[2 * p + 2]); is(t, m, "updated");
    size_t h = height(m);
    for (int k = 0; k < 4; ++k) { size_t l = r(h + 1), w = size_t(1) << l, f = r(w), e = f + r(w - f + 1); auto s = t.get_node_range(l, f, e); req(s.size() == e - f, "range size"); for (size_t i = f; i < e; ++i) req(str(s[i - f]) == m[w - 1 + i], "range");
        size_t root = w - 1 + f, d = r(h - l + 1), at = ((root + 1) << d) - 1; auto y = t.get_layer(d, root); req(y.size() == size_t(1) << d, "subtree layer size"); for (size_t i = 0; i < y.size(); ++i) req(str(y[i]) == m[at + i], "subtree layer"); }
    T c(t); is(c, m, "copied"); M m2 = m; auto v = r.bytes(32); size_t i = r(N); c.set_leaf(i, val(v)); m2[N - 1 + i] = v; is(c, m2, "changed"); is(t, m, "source of a copy"); T d(r(9)); d = c; is(d, m2, "assigned"); is(c, m2, "source of an assignment"); d = *&d; is(d, m2, "assigned to itself"); T e(std::move(d)); is(e, m2, "moved"); T g(r(9)); g = std::move(e); is(g, m2, "move assigned");
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    for (size_t n = 0; n <= 70; ++n) t({"tree", std::to_string(n), std::to_string(r(1u << 30))});
    for (int k = 58; k < 63; ++k) { t({"big", std::to_string(size_t(1) << k)}); if (k < 62) t({"big", std::to_string((size_t(1) << k) + 1)}); }
    while (more()) t({"tree", std::to_string(r.coin(8) ? r(2000) : r(40)), std::to_string(r(1u << 30))});
}
