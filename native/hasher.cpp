#include "hashnames.hpp"
static std::string data(uint64_t seed, size_t n) { Rng r(seed * 7919 + n); return r.bytes(n); }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// one history on one object: rounds of updates cut at random places, each followed by a finish
template <class Upd, class Fin> static void history(const char* md, size_t k, size_t n, uint64_t seed, bool restarts, Upd upd, Fin fin) {
    Rng r(seed);
    for (int round = 0; round < (restarts ? 4 : 1); ++round) {
        auto d = data(seed + round, round == 1 ? n / 2 : round == 2 ? 0 : n);
        if (round == 2 && seed % 2) { std::string g = fin(k); req(g == *ref(md, ""), "wrong digest of nothing after a finish"); continue; }
        size_t at = 0; int cuts = int(r(5));
        while (cuts-- > 0) { size_t c = r.coin(4) ? 0 : r(d.size() - at + 1); buf b(std::string_view(d).substr(at, c)); upd(b.sv(), r.coin()); at += c; }
        { buf b(std::string_view(d).substr(at)); upd(b.sv(), r.coin()); }
        std::string g = fin(k), w = *ref(md, d);
        req(g == w, "wrong digest in round " + std::to_string(round) + ": got " + hex(g) + " want " + hex(w));
    }
}
void run_case(const args& a) {
    const std::string &kind = a[0], &w = a.at(1), &name = a.at(2); size_t n = std::stoull(a.at(3)); uint64_t seed = std::stoull(a.at(4));
    if (n > (1u << 22)) n = 1u << 22;
    char c0 = name[0]; bool num = c0 == '-' || (c0 >= '0' && c0 <= '9');
    if (w == "hf") {
        if (num) { auto f = static_cast<hash_function>(std::stol(name)); for (auto& h : hfs) if (h.f == f) return;
            req(throws([&] { openssl_hasher h(f); }), "an identifier that is not advertised is accepted"); return; }
        for (auto& h : hfs) if (name == h.n) {
            auto& s = openssl_hasher::supported_algorithms(); auto& s2 = hasher_supported_algorithms(); bool adv = s.count(h.f); req(adv == (s2.count(h.f) > 0), "advertised sets differ"); for (auto f : s) req(std::any_of(std::begin(hfs), std::end(hfs), [&](auto& y) { return y.f == f; }), "an identifier that is not served is advertised");
            if (!ref(h.md, "")) { return; }
            if (kind == "hash") { auto d = data(seed, n); buf b(d);
                std::string g;
                #define X(x) if (h.f == hash_function::x) { auto r = make_hash<hash_function::x>(by(b.sv())); g.assign(reinterpret_cast<const char*>(r.data()), r.size()); }
                X(md4) X(md5) X(blake2b_512) X(blake2s_256) X(sha1) X(sha224) X(sha256) X(sha384) X(sha512) X(sha3_224) X(sha3_256) X(sha3_384) X(sha3_512) X(shake128) X(shake256) X(ripemd160) X(whirlpool)
                req(g == *ref(h.md, d), "make_hash: wrong digest"); return; }
            auto go = [&](single_buffer_hasher& o) { history(h.md, h.k, n, seed, true, [&](std::string_view s, bool text) { if (text) o.update(s); else o.update(by(s)); },
                [&](size_t k) { size_t m = k + seed % 3; std::unique_ptr<std::byte[]> p(new std::byte[m]()); o.finalize_to({p.get(), m}); return std::string(reinterpret_cast<char*>(p.get()), k); }); };
            { openssl_hasher o(h.f); go(o); } { auto o = make_hasher(h.f); go(*o); }
            return; }
    } else {
        if (num) { long v = std::stol(name); for (auto& m : mds) if (long(m.a) == v) return;
            req(throws([&] { openssl::message_digest o(static_cast<A>(v)); }), "an unknown digest identifier is accepted"); return; }
        for (auto& m : mds) if (name == m.n) {
            if (!ref(m.md, "")) return;
            if ((m.a == A::md2 || m.a == A::mdc2) && throws([&] { openssl::message_digest o(m.a); })) return;
            openssl::message_digest o(m.a);
            history(m.md, m.k, n, seed, true, [&](std::string_view s, bool) { o.update(by(s)); },
                [&](size_t k) { std::unique_ptr<std::byte[]> p(new std::byte[k]()); o.finalize_to({p.get(), k}); std::string r(reinterpret_cast<char*>(p.get()), k); o.reset(); return r; });
            return; }
    }
    fail("unknown case");
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    for (int v = -3; v < 300; ++v) { t({"new", "hf", std::to_string(v), "0", "0"}); t({"new", "md", std::to_string(v), "0", "0"}); }
    const size_t ns[] = {0, 1, 55, 56, 63, 64, 65, 127, 128, 129, 1000, 65536};
    for (auto n : ns) { for (auto& h : hfs) for (uint64_t s = 0; s < 4; ++s) { t({"fin", "hf", h.n, std::to_string(n), std::to_string(s)}); t({"hash", "hf", h.n, std::to_string(n), std::to_string(s)}); }
        for (auto& m : mds) t({"fin", "md", m.n, std::to_string(n), "1"}); }
    for (size_t n : {1u << 20, (1u << 22)}) for (auto x : {"sha1", "sha256", "md5"}) { t({"fin", "hf", x, std::to_string(n), "1"}); t({"hash", "hf", x, std::to_string(n), "1"}); }
    while (more()) { size_t n = r(r.coin(20) ? 300000 : 500); auto s = std::to_string(r(1000000)); auto& h = hfs[r(std::size(hfs))]; t({"fin", "hf", h.n, std::to_string(n), s}); t({"hash", "hf", h.n, std::to_string(n), s}); t({"fin", "md", mds[r(std::size(mds))].n, std::to_string(n), s}); }
}
