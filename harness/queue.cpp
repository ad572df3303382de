// Entry points only: bodies come from /repo/include/dottorrent/concurrent_queue.hpp.
#include <cstdint>
#include <new>
#include "dottorrent/concurrent_queue.hpp"
// an element whose move leaves a recognisable moved-from value
struct T { unsigned long v; T() = default; T(const T&) = default; T& operator=(const T&) = default; T(T&& o) noexcept : v(o.v) { o.v = 0; } T& operator=(T&& o) noexcept { if (this != &o) { v = o.v; o.v = 0; } return *this; } };
typedef dottorrent::concurrent_queue<T> Q;
extern "C" {
extern const unsigned long vc_qsize; const unsigned long vc_qsize = sizeof(Q);
void vc_ctor(Q* q, std::size_t n) { new (q) Q(n); }
void vc_dtor(Q* q) { q->~Q(); }
void vc_push(Q* q, const T* v) { q->push(*v); }
void vc_push_move(Q* q, T* v) { q->push(static_cast<T&&>(*v)); }
bool vc_try_push(Q* q, T* v) { return q->try_push(static_cast<T&&>(*v)); }
void vc_pop(Q* q, T* v) { q->pop(*v); }
bool vc_try_pop(Q* q, T* v) { return q->try_pop(*v); }
std::size_t vc_size(const Q* q) { return q->size(); }
void vc_set_capacity(Q* q, std::size_t n) { q->set_capacity(n); }
}
