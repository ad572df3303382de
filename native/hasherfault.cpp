// Fault injection: the crypto library calls of the real code are routed (ld --wrap) through counters that can make the n-th fail.
#include "hashnames.hpp"
static int fail_at = -1, calls = 0; static long news = 0, frees = 0; static bool on = false, fired = false; static std::set<void*> live;
static bool bad() { if (!on) return false; if (calls++ == fail_at) { fired = true; return true; } return false; }
extern "C" {
EVP_MD_CTX* __real_EVP_MD_CTX_new(); void __real_EVP_MD_CTX_free(EVP_MD_CTX*);
int __real_EVP_DigestInit_ex(EVP_MD_CTX*, const EVP_MD*, ENGINE*); int __real_EVP_DigestInit(EVP_MD_CTX*, const EVP_MD*);
int __real_EVP_DigestUpdate(EVP_MD_CTX*, const void*, size_t); int __real_EVP_DigestFinal_ex(EVP_MD_CTX*, unsigned char*, unsigned*); int __real_EVP_DigestFinal(EVP_MD_CTX*, unsigned char*, unsigned*);
EVP_MD_CTX* __wrap_EVP_MD_CTX_new() { if (bad()) return nullptr; auto p = __real_EVP_MD_CTX_new(); if (on) { ++news; live.insert(p); } return p; }
void __wrap_EVP_MD_CTX_free(EVP_MD_CTX* p) { if (on && p) { ++frees; if (!live.erase(p)) { on = false; fail("a context is released twice"); } } __real_EVP_MD_CTX_free(p); }
int __wrap_EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* m, ENGINE* e) { return bad() ? 0 : __real_EVP_DigestInit_ex(c, m, e); }
int __wrap_EVP_DigestInit(EVP_MD_CTX* c, const EVP_MD* m) { return bad() ? 0 : __real_EVP_DigestInit(c, m); }
int __wrap_EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n) { return bad() ? 0 : __real_EVP_DigestUpdate(c, d, n); }
int __wrap_EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* o, unsigned* n) { return bad() ? 0 : __real_EVP_DigestFinal_ex(c, o, n); }
int __wrap_EVP_DigestFinal(EVP_MD_CTX* c, unsigned char* o, unsigned* n) { return bad() ? 0 : __real_EVP_DigestFinal(c, o, n); }
}
// Every step: either it returns with no failure fired during it, or it throws.
template <class F> static bool step(const char* what, F f) {
    bool before = fired, threw = false;
    try { f(); } catch (const std::exception&) { threw = true; }
    bool was = fired && !before;
    if (was && !threw) { on = false; fail(std::string("a failing crypto library call is not reported by ") + what); }
    return !threw;
}
static int history(const std::string& w, const std::string& name, size_t n, size_t m, int at) {
    fail_at = at; calls = 0; news = frees = 0; fired = false; live.clear(); on = true;
    auto d = Rng(n).bytes(n % 4096); buf b(d); size_t k = 0; bool num = name[0] == '-' || std::isdigit((unsigned char)name[0]);
    auto shorts = [&](auto&& fin) { for (size_t q : {size_t(0), size_t(1), k / 2, k - 1, m}) if (q < k) { std::unique_ptr<std::byte[]> p(new std::byte[q]); std::memset(p.get(), 0x5a, q); bool threw = false;
            try { fin(std::span<std::byte>(p.get(), q)); } catch (const std::exception&) { threw = true; }
            bool same = true; for (size_t i = 0; i < q; ++i) same &= p[i] == std::byte(0x5a);
            if (!threw) { on = false; fail("a short output buffer is accepted"); } if (!same) { on = false; fail("a refused output buffer was written"); } } };
    auto out = [&](auto&& fin) { size_t q = std::max(k, m % 4096); std::unique_ptr<std::byte[]> p(new std::byte[q]()); fin(std::span<std::byte>(p.get(), q)); };
    if (w == "hf") {
        hash_function f{}; const char* md = nullptr; if (num) f = static_cast<hash_function>(std::stol(name)); for (auto& h : hfs) if (num ? h.f == f : name == h.n) { f = h.f; k = h.k; md = h.md; }
        std::unique_ptr<openssl_hasher> o;
        if (step("the constructor", [&] { o = std::make_unique<openssl_hasher>(f); }) && md && !fired) {
            if (step("update", [&] { o->update(by(b.sv())); }) && step("update(text)", [&] { static_cast<single_buffer_hasher&>(*o).update(b.sv()); })) {
                if (at < 0) { shorts([&](std::span<std::byte> s) { o->finalize_to(s); }); if (o) { o.reset(); o = std::make_unique<openssl_hasher>(f); } }
                if (step("finalize_to", [&] { out([&](std::span<std::byte> s) { o->finalize_to(s); }); })) { step("update after finalize_to", [&] { o->update(by(b.sv())); }); step("second finalize_to", [&] { out([&](std::span<std::byte> s) { o->finalize_to(s); }); }); } } }
        o.reset();
        if (md) step("make_hasher", [&] { auto h = make_hasher(f); h->update(by(b.sv())); out([&](std::span<std::byte> s) { h->finalize_to(s); }); });
        if (!num && name == "sha256") step("make_hash", [&] { make_hash<hash_function::sha256>(by(b.sv())); });
    } else {
        A x{}; const char* md = nullptr; if (num) x = static_cast<A>(std::stol(name)); for (auto& h : mds) if (num ? h.a == x : name == h.n) { x = h.a; k = h.k; md = h.md; }
        std::unique_ptr<openssl::message_digest> o;
        if (step("the constructor", [&] { o = std::make_unique<openssl::message_digest>(x); }) && md) {
            if (step("update", [&] { o->update(by(b.sv())); })) {
                if (at < 0) { shorts([&](std::span<std::byte> s) { o->finalize_to(s); }); o.reset(); o = std::make_unique<openssl::message_digest>(x); }
                if (step("finalize_to", [&] { out([&](std::span<std::byte> s) { o->finalize_to(s); }); })) step("reset", [&] { o->reset(); }); } }
        o.reset();
    }
    on = false; ERR_clear_error();
    req(news == frees && live.empty(), "digest contexts leaked: " + std::to_string(news) + " obtained, " + std::to_string(frees) + " released, failing call " + std::to_string(at));
    return calls;
}
void run_case(const args& a) {   // kind hf|md name n m: without failure, then with each library call failing in turn
    size_t n = std::stoull(a.at(3)), m = std::stoull(a.at(4));
    int c = history(a.at(1), a.at(2), n, m, -1);
    for (int i = 0; i < c; ++i) history(a.at(1), a.at(2), n, m, i);
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    for (int v = -3; v < 260; ++v) { t({"new", "hf", std::to_string(v), "3", "7"}); t({"new", "md", std::to_string(v), "3", "7"}); }
    while (more()) { for (auto& h : hfs) t({"fin", "hf", h.n, std::to_string(r(500)), std::to_string(r(80))}); for (auto& h : mds) t({"fin", "md", h.n, std::to_string(r(500)), std::to_string(r(80))}); }
}
