#include "drv.hpp"
#include "dottorrent/percent_encoding.hpp"
using namespace drv; namespace d = dottorrent::detail;
static bool unres(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '.' || c == '_' || c == '~'; }
static int hv(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static std::string enc(std::string_view s) { std::string r; for (unsigned char c : s) if (unres(c)) r += char(c); else { char b[4]; std::snprintf(b, 4, "%%%02X", c); r += b; } return r; }
// 0 ok, 1 bad digit in a complete escape, 2 truncated with digits only, 3 truncated with a bad digit (any error)
static int dec(std::string_view s, std::string& out) {
    out.clear();
    for (size_t i = 0; i < s.size();) {
        if (s[i] != '%') { out += s[i++]; continue; }
        if (i + 2 < s.size()) { int a = hv(s[i + 1]), b = hv(s[i + 2]); if (a < 0 || b < 0) return 1; out += char(a * 16 + b); i += 3; }
        else { if (i + 1 < s.size() && hv(s[i + 1]) < 0) return 3; return 2; }
    }
    return 0;
}
void run_case(const args& a) {
    const std::string& k = a[0]; std::string in = unhex(a.at(1)); buf b(in); auto sv = b.sv();
    if (k == "enc") { auto r = d::percent_encode(sv); req(r == enc(in), "wrong encoding"); std::string o; req(dec(r, o) == 0 && o == in, "encoding is not reversible"); 
        req(d::percent_decode(r) == in, "decode(encode(s)) != s"); }
    else if (k == "encit") { auto e = enc(in); std::unique_ptr<char[]> p(new char[e.size()]); d::percent_encode(sv.data(), sv.data() + sv.size(), p.get()); req(std::string_view(p.get(), e.size()) == e, "wrong encoding to pointer"); }
    else if (k == "dec" || k == "decs") { std::string want; int w = dec(in, want); std::string got;
        auto s = d::percent_decode(sv.begin(), sv.end(), std::back_inserter(got));
        if (w == 0) { req(s == d::percent_decode_status::success, "well-formed text refused"); req(got == want, "wrong characters decoded"); req(d::percent_decode(sv) == want, "wrong string decoded");
            std::unique_ptr<char[]> p(new char[want.size()]); req(d::percent_decode(sv.begin(), sv.end(), p.get()) == d::percent_decode_status::success && std::string_view(p.get(), want.size()) == want, "wrong decoding to pointer"); }
        else { req(s != d::percent_decode_status::success, "malformed text accepted");
            if (w == 1) req(s == d::percent_decode_status::non_hex_encoded_character, "bad digit reported wrongly");
            if (w == 2) req(s == d::percent_decode_status::incomplete_encoded_character, "truncated escape reported wrongly"); } }
    else if (k == "class") { char c = in.at(0); unsigned char u = c; bool num = u >= '0' && u <= '9', al = (u >= 'a' && u <= 'z') || (u >= 'A' && u <= 'Z');
        req(d::is_numeric(c) == num, "is_numeric"); req(d::is_alpha(c) == al, "is_alpha"); req(d::is_alphanumerical(c) == (num || al), "is_alphanumerical"); req(d::is_unreserved(c) == unres(u), "is_unreserved");
        req(d::is_reserved_character(c) == (c && std::strchr("!#$&'()*+,/:;=?@[]", c)), "is_reserved_character");
        char o[4] = {1, 1, 1, 1}; auto n = d::percent_encode_char(c, o); auto e = enc(in); req(n == e.size() && std::string(o, n) == e && o[3] == 1, "percent_encode_char"); }
    else fail("unknown case");
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    for (int x = 0; x < 256; ++x) { std::string s(1, char(x)); t({"class", hex(s)}); t({"enc", hex(s)}); t({"encit", hex(s)}); t({"dec", hex(s)}); }
    for (int x = 0; x < 256; ++x) for (int y = 0; y < 256; ++y) { std::string s{'%', char(x), char(y)}; t({"dec", hex(s)}); t({"enc", hex(s.substr(1))}); if (unres(x) && unres(y)) { t({"dec", hex("a" + s + "b")}); t({"dec", hex(s + "%4")}); t({"dec", hex(s + "%41")}); } }
    const std::string al = "%%%0aFgz +~"; for (size_t len = 0; len <= 5; ++len) { size_t tot = 1; for (size_t i = 0; i < len; ++i) tot *= al.size(); for (size_t c = 0; c < tot; ++c) { std::string s; size_t x = c; for (size_t i = 0; i < len; ++i) { s += al[x % al.size()]; x /= al.size(); } t({"dec", hex(s)}); } }
    while (more()) { size_t n = r(r.coin(10) ? 3000 : 40); auto s = r.bytes(n); t({"enc", hex(s)}); t({"encit", hex(s)}); t({"dec", hex(enc(s))}); auto e = enc(s); if (!e.empty()) { e[r(e.size())] = char(r.coin() ? '%' : r(256)); t({"dec", hex(e)}); t({"dec", hex(e.substr(0, r(e.size())))}); } t({"dec", hex(r.from(al, r(30)))}); }
}
