#include "drv.hpp"
#include <compare>
#include "dottorrent/dht_node.hpp"
using namespace drv; using namespace dottorrent;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
void run_case(const args& a) {
    std::string u = unhex(a.at(1)); unsigned p = unsigned(std::stoul(a.at(2))); buf b(u); dht_node x(b.sv(), std::uint16_t(p));
    req(x.url == u && x.port == p, "members"); req(static_cast<std::string>(x) == u + ":" + std::to_string(p), "printed form");
    { dht_node y(x); req(y.url == u && y.port == p && x.url == u && y == x, "copy"); dht_node z(std::move(y)); req(z.url == u && z.port == p, "move"); dht_node w("q", 1); w = x; req(w.url == u && w.port == p && w == x, "assign"); dht_node v("q", 1); v = std::move(w); req(v.url == u && v.port == p, "move assign"); }
    { const dht_node& c = x; req(&get<0>(c) == &x.url && &get<1>(c) == &x.port && &get<0>(x) == &x.url && &get<1>(x) == &x.port, "get"); }
    if (a[0] == "cmp") { std::string v = unhex(a.at(3)); unsigned q = unsigned(std::stoul(a.at(4))); dht_node y(v, std::uint16_t(q));
        int w = sgn(u.compare(v)); { size_t k = std::min(u.size(), v.size()); w = sgn(std::memcmp(u.data(), v.data(), k)); if (!w) w = u.size() < v.size() ? -1 : u.size() > v.size(); } if (!w) w = p < q ? -1 : p > q;
        auto r = x <=> y; int g = r < 0 ? -1 : r > 0; req(g == w, "<=>"); req((x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x > y) == (w > 0) && (x <= y) == (w <= 0), "relations"); }
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    for (unsigned p = 0; p < 65536; p += p < 1100 ? 1 : 37) t({"one", hex("h"), std::to_string(p)}); for (unsigned p : {9999u, 10000u, 65535u, 99u, 100u, 999u}) t({"one", "-", std::to_string(p)});
    for (size_t n : {15u, 16u, 31u, 32u, 63u, 64u, 127u, 128u, 253u, 254u, 255u, 256u, 257u, 300u, 512u, 1000u, 1024u, 1025u, 4097u, 65536u}) { auto u = r.bytes(n), v = u; v.back() = char(v.back() + 1); t({"one", hex(u), "6881"}); t({"cmp", hex(u), "6881", hex(v), "80"}); t({"cmp", hex(u), "1", hex(u), "256"}); }
    while (more()) { auto u = r.bytes(r(12)); auto v = u; unsigned p = unsigned(r(65536)), q = r.coin() ? p : unsigned(r(65536)); switch (r(5)) { case 0: v = r.bytes(r(12)); break; case 1: if (!v.empty()) v[r(v.size())] = char(r(256)); break; case 2: v += r.bytes(r(4)); break; case 3: v = v.substr(0, r(v.size() + 1)); break; default: break; } t({"cmp", hex(u), std::to_string(p), hex(v), std::to_string(q)}); }
}
