// Entry points only: bodies come from /repo/include/dottorrent/aligned_allocator.hpp.
#include <cstddef>
#include <memory>
#include <new>
#include <stdexcept>
#include <limits>
#include "dottorrent/aligned_allocator.hpp"
using namespace dottorrent;
struct s24 { unsigned long a, b, c; };
struct s7 { char c[7]; };
#define GEN(N, T, A) \
T* vc_alloc_##N(std::size_t n) { aligned_allocator<T, A> a; return a.allocate(n); } \
T* vc_hint_##N(std::size_t n, const int* h) { aligned_allocator<T, A> a; return a.allocate(n, h); } \
std::size_t vc_max_##N() { aligned_allocator<T, A> a; return a.max_size(); } \
void vc_round_##N(std::size_t n) { aligned_allocator<T, A> a; T* p = a.allocate(n); aligned_allocator<T, A> b(a); b.deallocate(p, n); } \
void vc_rebind_##N(std::size_t n) { aligned_allocator<T, A> a; aligned_allocator<T, A>::rebind<s24>::other b(a); s24* p = b.allocate(n); b.deallocate(p, n); } \
bool vc_eq_##N() { aligned_allocator<T, A> a, b; return a == b && !(a != b); } \
void vc_cons_##N(T* p, const T* v) { aligned_allocator<T, A> a; a.construct(p, *v); a.destroy(p); } \
bool vc_addr_##N(T* p) { aligned_allocator<T, A> a; return a.address(*p) == p && a.address(const_cast<const T&>(*p)) == p; }
extern "C" {
GEN(b16, std::byte, 16)
GEN(b64, std::byte, 64)
GEN(c4096, char, 4096)
GEN(u32, unsigned, 64)
GEN(u64, unsigned long, 8)
GEN(s24, s24, 32)
GEN(s7, s7, 128)
}
