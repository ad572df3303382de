#include <gsl-lite/gsl-lite.hpp>
#include "drv.hpp"
#include <compare>
#include <memory>
#include <span>
#include <tuple>
#include "dottorrent/hash_function.hpp"
#include "dottorrent/checksum.hpp"
using namespace drv; using namespace dottorrent;
struct K { const char* n; hash_function f; size_t size; };
#define X(n, k) {#n, hash_function::n, k},
static const K known[] = { X(md4, 16) X(md5, 16) X(blake2b_512, 64) X(blake2s_256, 32) X(sha1, 20) X(sha224, 28) X(sha256, 32) X(sha384, 48) X(sha512, 64) X(sha3_224, 28) X(sha3_256, 32) X(sha3_384, 48) X(sha3_512, 64) X(shake128, 16) X(shake256, 32) X(ripemd160, 20) X(whirlpool, 64) };
static const K* byname(const std::string& s) { for (auto& k : known) if (s == k.n) return &k; return nullptr; }
static const K* byid(unsigned f) { for (auto& k : known) if (f == unsigned(k.f)) return &k; return nullptr; }
static std::string str(std::span<const std::byte> s) { return std::string(reinterpret_cast<const char*>(s.data()), s.size()); }
static std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'F') c = char(c + 32); return s; }
static bool ishexs(const std::string& s) { if (s.size() % 2) return false; for (char c : s) if (!std::isxdigit((unsigned char) c)) return false; return true; }
static std::string hx(const std::string& s) { return s.empty() ? "" : hex(s); }
static void is(checksum* c, const K* k, const std::string& name, const std::string& v) {
    const checksum* d = c; if (k) req(d->algorithm() == k->f, "algorithm"); else req(!byid(unsigned(d->algorithm())), "no known algorithm");
    req(std::string(d->name()) == name, "name"); req(d->size() == v.size() && str(d->value()) == v, "value"); auto m = c->value(); req(m.data() == d->value().data() && m.size() == d->size(), "mutable value"); req(d->hex_string() == hx(v), "hex"); req(*d == *d && (*d <=> *d) == 0, "equal to itself"); }
template <class F> static void expect(bool ok, const char* w, F f) { bool thrown = false; try { f(); } catch (const std::exception&) { thrown = true; } req(thrown == !ok, w); }
static int rel(const checksum& a, const checksum& b) { auto x = a <=> b; return x < 0 ? -1 : x > 0 ? 1 : x == 0 ? 0 : 2; }
void run_case(const args& a) {
    const auto& k = a[0]; typedef std::span<const std::byte> SB;
    if (k == "key") { std::string n = unhex(a.at(1)), v = unhex(a.at(2)); buf bn(n), bv(v); auto p = reinterpret_cast<const std::byte*>(bv.p.get()); auto q = byname(n); bool ok = !q || q->size == v.size();
        expect(ok, "name, bytes", [&] { auto c = make_checksum(bn.sv(), SB(p, bv.n)); is(c.get(), q, n, v); }); expect(ok, "name, text", [&] { auto c = make_checksum(bn.sv(), bv.sv()); is(c.get(), q, n, v); });
        { auto c = make_checksum(bn.sv()); is(c.get(), q, n, std::string(q ? q->size : 0, '\0')); } { generic_checksum c(bn.sv(), SB(p, bv.n)); is(&c, nullptr, n, v); } { generic_checksum c(bn.sv(), std::span<const char>(bv.p.get(), bv.n)); is(&c, nullptr, n, v); } { generic_checksum c(bn.sv()); is(&c, nullptr, n, ""); }
        bool h = ishexs(v); auto w = h ? unhex(lower(v.empty() ? "-" : v)) : ""; expect(h && (!q || q->size == w.size()), "name, digits", [&] { auto c = make_checksum_from_hex(bn.sv(), bv.sv()); is(c.get(), q, n, w); }); return; }
    if (k == "fn") { unsigned f = unsigned(std::stoul(a.at(1))); auto e = static_cast<hash_function>(f); std::string v = unhex(a.at(2)); buf bv(v); auto p = reinterpret_cast<const std::byte*>(bv.p.get()); auto q = byid(f); bool ok = q && q->size == v.size(); std::string n = q ? q->n : "";
        expect(ok, "id, bytes", [&] { auto c = make_checksum(e, SB(p, bv.n)); is(c.get(), q, n, v); }); expect(ok, "id, text", [&] { auto c = make_checksum(e, bv.sv()); is(c.get(), q, n, v); }); expect(q, "id", [&] { auto c = make_checksum(e); is(c.get(), q, n, std::string(q ? q->size : 0, '\0')); });
        bool h = ishexs(v); auto w = h ? unhex(lower(v.empty() ? "-" : v)) : ""; expect(h && q && q->size == w.size(), "id, digits", [&] { auto c = make_checksum_from_hex(e, bv.sv()); is(c.get(), q, n, w); }); return; }
    if (k == "fix") { std::string v = unhex(a.at(1)), w = unhex(a.at(2)); for (auto& x : known) if (x.size == v.size()) { auto c = make_checksum(x.f, v), d = make_checksum(x.f, w); int s = std::memcmp(v.data(), w.data(), v.size()); s = s < 0 ? -1 : s > 0; req(rel(*c, *d) == s && (*c == *d) == (s == 0), "fixed size");
            for (auto& y : known) if (&y != &x && y.size == x.size) { auto e = make_checksum(y.f, w); req(rel(*c, *e) == 2 && !(*c == *e), "other algorithm"); } generic_checksum g(x.n, std::span<const char>(w.data(), w.size())); req(rel(*c, g) == s && (*c == g) == (s == 0), "same name"); } return; }
    std::string n = unhex(a.at(1)), v = unhex(a.at(2)), n2 = unhex(a.at(3)), v2 = unhex(a.at(4)); auto mk = [](const std::string& n, const std::string& v) { return generic_checksum(n, std::span<const std::byte>(reinterpret_cast<const std::byte*>(v.data()), v.size())); };
    generic_checksum c = mk(n, v), d = mk(n2, v2); int w = v.compare(v2) < 0 ? -1 : v.compare(v2) > 0; if (n != n2) w = 2; req(rel(c, d) == w, "<=>"); req((c == d) == (w == 0) && (c != d) == (w != 0), "=="); generic_checksum e(c); is(&e, nullptr, n, v); e = d; is(&e, nullptr, n2, v2);
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    const char* X_ = "0123456789abcdefABCDEF";
    for (auto& k : known) for (size_t n : {size_t(0), size_t(1), k.size - 1, k.size, k.size + 1, 2 * k.size - 1, 2 * k.size, 2 * k.size + 1, 2 * k.size + 2}) { t({"key", hex(k.n), hex(r.bytes(n))}); t({"key", hex(k.n), hex(r.from(X_, n))}); t({"fn", std::to_string(unsigned(k.f)), hex(r.from(X_, n))}); auto s = r.from(X_, n); if (n) { s[r(n)] = 'g'; t({"key", hex(k.n), hex(s)}); t({"fn", std::to_string(unsigned(k.f)), hex(s)}); } }
    for (unsigned f = 0; f < 40; ++f) for (size_t n : {0, 16, 20, 28, 32, 48, 64}) t({"fn", std::to_string(f), hex(r.bytes(n))});
    while (more()) switch (r(4)) {
        case 0: { std::string n = known[r(std::size(known))].n; if (r.coin()) n[r(n.size())] = char(r(256)); else if (r.coin()) n += char(r(256)); else if (r.coin()) n = r.bytes(r(8)); t({"key", hex(n), hex(r.coin() ? r.bytes(r(70)) : r.from(X_, r(70)))}); break; }
        case 1: { size_t n = known[r(std::size(known))].size; auto v = r.bytes(n), w = v; if (r.coin()) w[r(n)] = char(r(256)); t({"fix", hex(v), hex(w)}); break; }
        default: { auto n = r.bytes(r(5)), v = r.bytes(r(6)), n2 = n, v2 = v; if (r.coin()) n2 = r.bytes(r(5)); switch (r(4)) { case 0: v2 = r.bytes(r(6)); break; case 1: v2 += char(r(256)); break; case 2: if (!v2.empty()) v2[r(v2.size())] = char(r(256)); break; default: break; } t({"cmp", hex(n), hex(v), hex(n2), hex(v2)}); } }
}
