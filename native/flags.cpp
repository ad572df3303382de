#include "drv.hpp"
#include "dottorrent/general.hpp"
using namespace drv; using namespace dottorrent;
enum class e8 : std::uint8_t {}; enum class e16 : std::int16_t {}; enum class e64 : std::uint64_t {};
DOTTORRENT_ENABLE_BITMASK_OPERATORS(e8); DOTTORRENT_ENABLE_BITMASK_OPERATORS(e16); DOTTORRENT_ENABLE_BITMASK_OPERATORS(e64);
template <class E> void ops(uint64_t x, uint64_t y) { using T = std::underlying_type_t<E>; T a = T(x), b = T(y);
    req(T(dottorrent::operator|(E(a), E(b))) == T(a | b), "|"); req(T(dottorrent::operator&(E(a), E(b))) == T(a & b), "&"); req(T(dottorrent::operator^(E(a), E(b))) == T(a ^ b), "^"); req(T(dottorrent::operator~(E(a))) == T(~a), "~");
    E c = E(a); req(&dottorrent::operator|=(c, E(b)) == &c && T(c) == T(a | b), "|="); c = E(a); req(&dottorrent::operator&=(c, E(b)) == &c && T(c) == T(a & b), "&="); c = E(a); req(&dottorrent::operator^=(c, E(b)) == &c && T(c) == T(a ^ b), "^="); }
void run_case(const args& a) {
    if (a[0] == "op") { uint64_t x = std::strtoull(a.at(2).c_str(), 0, 10), y = std::strtoull(a.at(3).c_str(), 0, 10); int w = std::atoi(a[1].c_str()); if (w == 8) ops<e8>(x, y); else if (w == 16) ops<e16>(x, y); else if (w == 64) ops<e64>(x, y); else { ops<file_attributes>(x, y); ops<protocol>(x, y); ops<file_options>(x, y); } }
    else if (a[0] == "attr") { int v = std::atoi(a.at(1).c_str()); auto s = to_string(file_attributes(v)); std::string w; for (auto [l, b] : {std::pair{'l', 1}, {'x', 2}, {'h', 4}, {'p', 8}}) if (v & b) w += l; auto x = s; std::sort(x.begin(), x.end()); std::sort(w.begin(), w.end()); req(x == w, "attribute letters"); req(int(make_file_attributes(s)) == v, "attribute round trip"); }
    else if (a[0] == "make") { std::string s = unhex(a.at(1)); buf b(s); int want = 0; bool ok = true; for (char c : s) switch (c) { case 'l': want |= 1; break; case 'x': want |= 2; break; case 'h': want |= 4; break; case 'p': want |= 8; break; default: ok = false; }
        bool threw = false; int got = 0; try { got = int(make_file_attributes(b.sv())); } catch (const std::invalid_argument&) { threw = true; } req(threw == !ok, "attribute text accepted/refused wrongly"); if (ok) req(got == want, "wrong attributes"); }
    else if (a[0] == "proto") { req((protocol::v1 | protocol::v2) == protocol::hybrid && (protocol::hybrid & protocol::v1) == protocol::v1 && (protocol::hybrid & protocol::v2) == protocol::v2 && (protocol::v1 & protocol::v2) == protocol::none, "protocol flags"); }
    else fail("unknown case");
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    t({"proto"}); for (int v = 0; v < 16; ++v) t({"attr", std::to_string(v)}); for (int c = 0; c < 256; ++c) { t({"make", hex(std::string(1, char(c)))}); t({"make", hex(std::string("lx") + char(c) + "h")}); }
    for (int a = 0; a < 20; ++a) for (int b = 0; b < 20; ++b) for (const char* w : {"8", "16", "32", "64"}) t({"op", w, std::to_string(a), std::to_string(b)});
    while (more()) { for (const char* w : {"8", "16", "32", "64"}) t({"op", w, std::to_string(r.g()), std::to_string(r.g())}); t({"make", hex(r.from("lxhp", r(40)))}); auto s = r.from("lxhp", 1 + r(40)); s[r(s.size())] = char(r(256)); t({"make", hex(s)}); }
}
