#include <gsl-lite/gsl-lite.hpp>
#include "drv.hpp"
#include <compare>
#include <tuple>
#include "dottorrent/info_hash.hpp"
using namespace drv; using namespace dottorrent;
static std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'F') c = char(c + 32); return s; }
static bool ishexs(const std::string& s, size_t n) { if (s.size() != 2 * n) return false; for (char c : s) if (!std::isxdigit((unsigned char) c)) return false; return true; }
template <class F> static bool thrown(F f) { try { f(); return false; } catch (const std::invalid_argument&) { return true; } }
static info_hash mk(int k, const std::string& a, const std::string& b) { sha1_hash x{std::string_view(a)}; sha256_hash y{std::string_view(b)}; return k == 1 ? info_hash(x) : k == 2 ? info_hash(y) : info_hash(x, y); }
static void is(const info_hash& h, int k, const std::string& a, const std::string& b) {
    req(int(h.version()) == k, "version");
    if (k & 1) { req(std::string(h.get_binary(protocol::v1)) == a && h.get_hex(protocol::v1) == hex(a) && std::string(std::string_view(h.v1())) == a, "version 1 hash"); }
    if (k & 2) { req(std::string(h.get_binary(protocol::v2)) == b && h.get_hex(protocol::v2) == hex(b) && std::string(std::string_view(h.v2())) == b, "version 2 hash"); req(std::string(std::string_view(h.truncated_v2())) == b.substr(0, 20), "truncated"); }
}
static int c3(const info_hash& x, const info_hash& y) { auto r = x <=> y; return r < 0 ? -1 : r > 0; }
void run_case(const args& a) {
    const auto& k = a[0];
    if (k == "val") { std::vector<std::string> v; for (size_t i = 1; i < a.size(); ++i) v.push_back(unhex(a[i])); struct E { int k; std::string a, b; info_hash h; }; std::vector<E> e;
        for (size_t i = 0; i + 1 < v.size(); i += 2) for (int q = 1; q <= 3; ++q) e.push_back({q, v[i], v[i + 1], mk(q, v[i], v[i + 1])});
        for (auto& x : e) { is(x.h, x.k, x.a, x.b); info_hash c(x.h); is(c, x.k, x.a, x.b); req(c == x.h && std::hash<info_hash>{}(c) == std::hash<info_hash>{}(x.h), "copy");
            for (auto& y : e) { info_hash d(y.h); d = x.h; is(d, x.k, x.a, x.b); req(d == x.h, "assigned"); bool same = x.k == y.k && (!(x.k & 1) || x.a == y.a) && (!(x.k & 2) || x.b == y.b); int r = c3(x.h, y.h);
                req((x.h == y.h) == same && (x.h != y.h) == !same && (r == 0) == same && r == -c3(y.h, x.h), "equality and order"); req((x.h < y.h) == (r < 0) && (x.h > y.h) == (r > 0) && (x.h <= y.h) == (r <= 0) && (x.h >= y.h) == (r >= 0), "relations");
                if (same) req(std::hash<info_hash>{}(x.h) == std::hash<info_hash>{}(y.h), "hash code"); if (r < 0) for (auto& z : e) if (c3(y.h, z.h) < 0) req(c3(x.h, z.h) < 0, "transitive"); } }
        return; }
    int ver = std::stoi(a.at(1)); std::string s = unhex(a.at(2)), t = unhex(a.at(3)); buf b(s), d(t);
    if (k == "data") { bool ok = (ver == 1 && s.size() == 20) || (ver == 2 && s.size() == 32); req(thrown([&] { info_hash h(static_cast<protocol>(ver), b.sv()); is(h, ver, s, s); }) == !ok, "by version"); }
    if (k == "data2") { bool ok = s.size() == 20 && t.size() == 32; req(thrown([&] { info_hash h(b.sv(), d.sv()); is(h, 3, s, t); }) == !ok, "two versions"); }
    if (k == "fh1") req(thrown([&] { is(info_hash::from_hex(protocol::v1, b.sv()), 1, unhex(lower(s)), ""); }) == !ishexs(s, 20), "from_hex v1");
    if (k == "fh2") req(thrown([&] { is(info_hash::from_hex(protocol::v2, b.sv()), 2, "", unhex(lower(s))); }) == !ishexs(s, 32), "from_hex v2");
    if (k == "fh3") req(thrown([&] { is(info_hash::from_hex(b.sv(), d.sv()), 3, unhex(lower(s)), unhex(lower(t))); }) == !(ishexs(s, 20) && ishexs(t, 32)), "from_hex");
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    const char* X = "0123456789abcdefABCDEF";
    for (int v = -1; v < 5; ++v) for (size_t n = 0; n < 70; ++n) t({"data", std::to_string(v), hex(r.bytes(n)), "-"});
    for (size_t n = 0; n < 80; ++n) for (const char* k : {"fh1", "fh2"}) t({k, "0", hex(r.from(X, n)), "-"});
    for (size_t n : {0, 19, 20, 21, 32}) for (size_t m : {0, 20, 31, 32, 33}) t({"data2", "0", hex(r.bytes(n)), hex(r.bytes(m))});
    for (size_t n : {38, 39, 40, 41, 64}) for (size_t m : {40, 63, 64, 65, 66}) t({"fh3", "0", hex(r.from(X, n)), hex(r.from(X, m))});
    for (int i = 0; i < 64; ++i) { auto s = r.from(X, 40), u = r.from(X, 64); t({"fh3", "0", hex(s), hex(u)}); u[i] = 'g'; t({"fh3", "0", hex(s), hex(u)}); t({"fh2", "0", hex(u), "-"}); if (i < 40) { s[i] = '@'; t({"fh1", "0", hex(s), "-"}); t({"fh3", "0", hex(s), hex(r.from(X, 64))}); } }
    while (more()) { auto a = r.bytes(20), b = r.bytes(32); args q{"val", hex(a), hex(b)}; for (int i = 0; i < 2; ++i) { auto c = a, d = b; if (r.coin()) c[r(20)] = char(r(256)); if (r.coin()) d[r(32)] = char(r(256)); if (r.coin(4)) c = r.bytes(20); q.push_back(hex(c)); q.push_back(hex(d)); } t(q); }
}
