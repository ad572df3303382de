// Shared by the native contract validation drivers.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <chrono>
#include <random>
#include <algorithm>
#include <functional>
#include <set>
#include <map>
#include <optional>
#include <stdexcept>
#include <fmt/format.h>
namespace drv {
inline std::string hex(std::string_view s) { if (s.empty()) return "-"; std::string r; char b[3]; for (unsigned char c : s) { std::snprintf(b, 3, "%02x", c); r += b; } return r; }
inline std::string unhex(std::string_view s) { if (s == "-") return ""; std::string r; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(v(s[i]) * 16 + v(s[i + 1])); return r; }
struct Rng {
    std::mt19937_64 g; explicit Rng(uint64_t s) : g(s) {}
    uint64_t operator()(uint64_t n) { return n ? g() % n : 0; }
    bool coin(unsigned n = 2) { return g() % n == 0; }
    std::string bytes(size_t n) { std::string s(n, 0); for (auto& c : s) c = char(g()); return s; }
    std::string from(std::string_view alphabet, size_t n) { std::string s(n, 0); for (auto& c : s) c = alphabet[g() % alphabet.size()]; return s; }
};
inline uint64_t ncases = 0; inline std::set<uint64_t> seen;
// A case is a list of string arguments (kind first); it is announced before it runs so that a crash leaves it on record.
using args = std::vector<std::string>;
inline std::string cur;
inline void dump_case();
[[noreturn]] inline void fail(const std::string& why) { dump_case(); std::printf("FAIL %s\n", why.c_str()); std::fflush(stdout); std::_Exit(1); }
inline void req(bool ok, const char* why) { if (!ok) fail(why); }
inline void req(bool ok, const std::string& why) { if (!ok) fail(why); }
// exact-size heap copy: out of bounds accesses are seen by the sanitizer
struct buf { std::unique_ptr<char[]> p; size_t n; explicit buf(std::string_view s) : p(new char[s.size()]), n(s.size()) { if (n) std::memcpy(p.get(), s.data(), n); }
    std::string_view sv() const { return {p.get(), n}; } };
}
void run_case(const drv::args& a);                                   // defined by each driver: aborts through fail()
void search(drv::Rng& r, const std::function<bool()>& more, const std::function<void(drv::args)>& t);
namespace drv {
inline char casebuf[1 << 16];
inline void announce(const args& a) {
    cur.clear(); for (auto& x : a) { if (!cur.empty()) cur += ' '; cur += x; }
    std::snprintf(casebuf, sizeof casebuf, "%s", cur.c_str());
}
inline void drv_dump() { std::printf("case: %s\n", casebuf); std::fflush(stdout); }
inline void dump_case() { drv_dump(); }
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#endif
#include <csignal>
int main(int argc, char** argv)
{
    using namespace drv;
    std::setvbuf(stdout, nullptr, _IOLBF, 0);
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
    __sanitizer_set_death_callback(+[] { drv_dump(); });
#endif
#endif
    std::set_terminate([] { drv_dump(); std::printf("FAIL std::terminate\n"); std::fflush(stdout); std::_Exit(1); });
    auto go = [](const args& a) { announce(a);
        ++ncases; if (seen.size() < 2000000) seen.insert(std::hash<std::string>{}(cur));
        try { run_case(a); } catch (const std::exception& e) { drv_dump(); fail(std::string("unexpected exception: ") + e.what()); } };
    if (argc >= 3 && std::string(argv[1]) == "case") { args a; for (int i = 2; i < argc; ++i) a.push_back(argv[i]); go(a); std::puts("ok"); return 0; }
    if (argc >= 4 && std::string(argv[1]) == "search") {
        Rng r(std::strtoull(argv[2], nullptr, 10)); double budget = std::atof(argv[3]);
        auto t0 = std::chrono::steady_clock::now();
        uint64_t tick = 0; bool stop = false;
        auto more = [&] { if ((++tick & 15) == 0) stop = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; return !stop; };
        search(r, more, go);
        std::printf("cases: %llu\ndistinct: %llu\n", (unsigned long long)ncases, (unsigned long long)seen.size());
        return 0;
    }
    std::puts("usage"); return 3;
}
