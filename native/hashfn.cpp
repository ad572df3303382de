#include "drv.hpp"
#include "dottorrent/hash_function.hpp"
using namespace drv; using namespace dottorrent;
static const std::map<int, std::string> N = {{2, "md4"}, {3, "md5"}, {4, "blake2b_512"}, {5, "blake2s_256"}, {6, "sha1"}, {7, "sha224"}, {8, "sha256"}, {9, "sha384"}, {10, "sha512"}, {11, "sha3_224"}, {12, "sha3_256"}, {13, "sha3_384"}, {14, "sha3_512"}, {15, "shake128"}, {16, "shake256"}, {17, "ripemd160"}, {18, "whirlpool"}};
void run_case(const args& a) {
    if (a[0] == "id") { int i = std::atoi(a.at(1).c_str()); auto it = N.find(i); std::string got; bool threw = false;
        try { got = std::string(to_string(static_cast<hash_function>(i))); } catch (const std::invalid_argument&) { threw = true; }
        req(threw == (it == N.end()), "identifier accepted/refused wrongly"); if (!threw) { req(got == it->second, "wrong name"); auto r = make_hash_function(got); req(r && int(*r) == i, "name does not lead back"); req(is_hash_function_name(got), "name unknown"); } }
    else if (a[0] == "name") { std::string s = unhex(a.at(1)); buf b(s); int id = -1; for (auto& [k, v] : N) if (v == s) id = k;
        auto r = make_hash_function(b.sv()); req(bool(r) == (id >= 0), "name accepted/refused wrongly"); if (r) req(int(*r) == id, "wrong identifier"); req(is_hash_function_name(b.sv()) == (id >= 0), "is_hash_function_name"); }
    else fail("unknown case");
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    for (int i = -300; i < 300; ++i) t({"id", std::to_string(i)});
    t({"name", "-"}); t({"name", hex("none")}); t({"name", hex("md2")});
    for (auto& [k, v] : N) { t({"name", hex(v)}); for (size_t p = 0; p < v.size(); ++p) { t({"name", hex(v.substr(0, p))}); t({"name", hex(v.substr(p + 1))}); for (int c = 0; c < 256; ++c) { auto s = v; s[p] = char(c); t({"name", hex(s)}); } auto s = v; s[p] = char(std::toupper(s[p])); t({"name", hex(s)}); s = v; s.insert(p, 1, '-'); t({"name", hex(s)}); s = v; s.erase(p, 1); t({"name", hex(s)}); }
        for (auto& [k2, v2] : N) { t({"name", hex(v + v2)}); } t({"name", hex(v + std::string(1, '\0'))}); t({"name", hex(v + " ")}); t({"name", hex(" " + v)}); }
    while (more()) { t({"name", hex(r.from("abmdhsk0123456789_lriwpo", r(12)))}); t({"id", std::to_string(int(r.g()))}); }
}
