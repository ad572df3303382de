#include "drv.hpp"
#include "dottorrent/hex.hpp"
using namespace drv; using namespace dottorrent;
static bool ishex(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int hv(unsigned char c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
static std::string enc(std::string_view s, bool up = false) { std::string r; for (unsigned char c : s) { char b[3]; std::snprintf(b, 3, up ? "%02X" : "%02x", c); r += b; } return r; }
static std::optional<std::string> dec(std::string_view s) { if (s.size() % 2) return {}; for (char c : s) if (!ishex(c)) return {}; std::string r; for (size_t i = 0; i < s.size(); i += 2) r += char(hv(s[i]) * 16 + hv(s[i + 1])); return r; }
static std::span<const std::byte> bytes(const buf& b) { return {reinterpret_cast<const std::byte*>(b.p.get()), b.n}; }
template <size_t N> void decn(std::string_view in) {
    buf b(in); auto r = from_hexadecimal_string<N>(b.sv()); auto e = dec(in);
    bool want = e && e->size() == N; req(bool(r) == want, want ? "well-formed digest text refused" : "malformed digest text accepted");
    if (r) req(std::memcmp(r->data(), e->data(), N) == 0, "wrong bytes decoded");
}
void run_case(const args& a) {
    std::string in = unhex(a.at(1)); buf b(in);
    const std::string& k = a[0];
    if (k == "enc") { req(to_hexadecimal_string(bytes(b)) == enc(in), "wrong hexadecimal text"); 
        auto d = dec(to_hexadecimal_string(bytes(b))); req(d && *d == in, "round trip"); }
    else if (k == "encit") { std::vector<char> o(2 * in.size()); std::unique_ptr<char[]> p(new char[2 * in.size()]); auto e = to_hexadecimal_string(p.get(), bytes(b));
        req(e == p.get() + 2 * in.size(), "returned iterator"); req(std::string(p.get(), 2 * in.size()) == enc(in), "wrong hexadecimal text");
        std::string s; to_hexadecimal_string(std::back_inserter(s), bytes(b)); req(s == enc(in), "wrong text through back_inserter"); }
    else if (k == "decit") { auto e = dec(in); std::vector<std::byte> v; bool threw = false;
        try { from_hexadecimal_string(std::back_inserter(v), b.sv()); } catch (const std::exception&) { threw = true; }
        req(threw == !e, e ? "well-formed text refused" : "malformed text accepted");
        if (e) { req(v.size() == e->size() && (v.empty() || std::memcmp(v.data(), e->data(), v.size()) == 0), "wrong bytes decoded");
            std::unique_ptr<std::byte[]> p(new std::byte[e->size()]); from_hexadecimal_string(p.get(), b.sv()); req(e->empty() || std::memcmp(p.get(), e->data(), e->size()) == 0, "wrong bytes decoded to pointer"); } }
    else if (k == "pair") { std::byte o{}; char x = in.at(0), y = in.at(1); bool ok = detail::hex_to_byte(x, y, o); auto e = dec(in); req(ok == bool(e), "pair validity"); if (e) req(char(o) == (*e)[0], "pair value");
        std::byte o2{}; req(detail::hex_to_byte(b.sv(), o2) == ok && (!ok || o == o2), "pair view"); }
    else if (k == "byte") { char o[2], u[2]; detail::byte_to_hex(std::byte(in.at(0)), o); detail::byte_to_hex_uppercase(std::byte(in[0]), u); req(std::string(o, 2) == enc(in), "byte_to_hex"); req(std::string(u, 2) == enc(in, true), "byte_to_hex_uppercase"); }
    else if (k == "dec1") decn<1>(in); else if (k == "dec2") decn<2>(in); else if (k == "dec16") decn<16>(in); else if (k == "dec20") decn<20>(in); else if (k == "dec28") decn<28>(in);
    else if (k == "dec32") decn<32>(in); else if (k == "dec48") decn<48>(in); else if (k == "dec64") decn<64>(in);
    else fail("unknown case");
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    for (int x = 0; x < 256; ++x) { t({"byte", hex(std::string(1, char(x)))}); t({"enc", hex(std::string(1, char(x)))}); }
    for (int x = 0; x < 256; ++x) for (int y = 0; y < 256; ++y) { std::string s{char(x), char(y)}; t({"pair", hex(s)}); t({"dec1", hex(s)}); t({"decit", hex(s)}); }
    const int sizes[] = {1, 2, 16, 20, 28, 32, 48, 64}; const std::string digits = "0123456789abcdefABCDEF";
    for (int N : sizes) for (int d = -2 * N; d <= 3; ++d) { std::string s = r.from(digits, 2 * N + d); t({"dec" + std::to_string(N), hex(s)}); t({"decit", hex(s)}); }
    for (int N : sizes) for (int p = 0; p < 2 * N; ++p) for (int b : {0, 47, 58, 64, 71, 96, 103, 0x80, 0xff, 32, 45, 43, 120}) { std::string s = r.from(digits, 2 * N); s[p] = char(b); t({"dec" + std::to_string(N), hex(s)}); t({"decit", hex(s)}); }
    for (size_t n = 0; n < 600; ++n) { auto s = r.bytes(n); t({"enc", hex(s)}); t({"encit", hex(s)}); t({"decit", hex(enc(s, r.coin()))}); t({"decit", hex(r.from(digits, n))}); }
    while (more()) { size_t n = r(r.coin(8) ? 5000 : 80); auto s = r.bytes(n); t({"enc", hex(s)}); t({"encit", hex(s)});
        auto e = r.from(digits, n); t({"decit", hex(e)}); if (n) { e[r(n)] = char(r(256)); t({"decit", hex(e)}); }
        int N = sizes[r(8)]; e = r.from(digits, 2 * N); t({"dec" + std::to_string(N), hex(e)}); e[r(2 * N)] = char(r(256)); t({"dec" + std::to_string(N), hex(e)}); }
}
