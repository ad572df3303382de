#include <memory>
#include <new>
#include "drv.hpp"
#include "dottorrent/aligned_allocator.hpp"
using namespace drv; using namespace dottorrent;
static bool failing = false; static long nalloc = 0;
extern "C" { void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_malloc(size_t);
void* __wrap_aligned_alloc(size_t a, size_t n) { ++nalloc; if (failing || n > (1ull << 32)) return nullptr; void* p = nullptr; return __real_posix_memalign(&p, a < 8 ? 8 : a, n) ? nullptr : p; }   // the sanitizer's own aligned_alloc refuses sizes glibc accepts
int __wrap_posix_memalign(void** p, size_t a, size_t n) { ++nalloc; return failing || n > (1ull << 32) ? 12 : __real_posix_memalign(p, a, n); }
void* __wrap_malloc(size_t n) { return failing ? nullptr : __real_malloc(n); } }
struct s24 { unsigned long a, b, c; }; struct s7 { char c[7]; };
template <class T, size_t A> static void one(size_t n, bool f) {
    aligned_allocator<T, A> a; size_t lim = size_t(-1) / sizeof(T); req(a.max_size() == lim, "max_size");
    T* p = nullptr; int exc = 0; failing = f; try { p = a.allocate(n); } catch (const std::length_error&) { exc = 1; } catch (const std::bad_alloc&) { exc = 2; } catch (...) { exc = 3; } failing = false;
    if (n == 0) { req(exc == 0 && p == nullptr, "a request for nothing gives storage"); return; }
    if (n > lim) { req(exc == 1, "an overflowing request is not refused with length_error"); return; }
    if (f || n * sizeof(T) > (1ull << 32)) { req(exc == 2, "memory exhaustion is not reported as bad_alloc"); return; }
    req(exc == 0 && p != nullptr, "a request that can be met is refused"); req(reinterpret_cast<uintptr_t>(p) % A == 0, "storage is not aligned");
    if (n * sizeof(T) < (1u << 22)) std::memset((void*)p, 0x5a, n * sizeof(T)); else { ((char*)p)[0] = 1; ((char*)p)[n * sizeof(T) - 1] = 1; }
    T* h = nullptr; if (n * sizeof(T) < (1u << 22)) { h = a.allocate(n, p); req(h != nullptr && reinterpret_cast<uintptr_t>(h) % A == 0, "storage asked for with a hint is not aligned"); std::memset((void*)h, 0x3c, n * sizeof(T)); req(n == 0 || *(unsigned char*)p == 0x5a, "a hint changes what it points to"); a.deallocate(h, n); }
    a.deallocate(p, n);
    typename aligned_allocator<T, A>::template rebind<s24>::other b(a); auto* q = b.allocate(3); req(reinterpret_cast<uintptr_t>(q) % A == 0, "rebound storage is not aligned"); std::memset((void*)q, 1, 72); b.deallocate(q, 3);
    if (n < 100000) { std::vector<T, aligned_allocator<T, A>> v(n); req(reinterpret_cast<uintptr_t>(v.data()) % A == 0, "vector storage is not aligned"); v.resize(2 * n + 1); std::memset((void*)v.data(), 2, v.size() * sizeof(T)); req(reinterpret_cast<uintptr_t>(v.data()) % A == 0, "vector storage is not aligned"); }
}
void run_case(const args& a) {
    const std::string& k = a.at(1); size_t n = std::stoull(a.at(2));
    for (bool f : {false, true}) {
        if (k == "b16") one<std::byte, 16>(n, f); else if (k == "b64") one<std::byte, 64>(n, f); else if (k == "c4096") one<char, 4096>(n, f); else if (k == "u32") one<unsigned, 64>(n, f);
        else if (k == "u64") one<unsigned long, 8>(n, f); else if (k == "s24") one<s24, 32>(n, f); else if (k == "s7") one<s7, 128>(n, f); else fail("unknown case"); }
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    const std::pair<const char*, size_t> ks[] = {{"b16", 1}, {"b64", 1}, {"c4096", 1}, {"u32", 4}, {"u64", 8}, {"s24", 24}, {"s7", 7}};
    for (auto [k, s] : ks) { for (size_t n = 0; n < 300; ++n) t({"alloc", k, std::to_string(n)}); size_t lim = size_t(-1) / s; for (long d = -3; d <= 3; ++d) t({"alloc", k, std::to_string(lim + d)});
        for (int b = 0; b < 64; ++b) for (long d = -1; d <= 1; ++d) if ((1ull << b) + d < (1ull << 24) || (1ull << b) + d > (1ull << 33)) t({"alloc", k, std::to_string((1ull << b) + d)}); }
    while (more()) { auto [k, s] = ks[r(7)]; t({"alloc", k, std::to_string(r.coin(8) ? r.g() | (1ull << 40) : r(20000))}); }
}
