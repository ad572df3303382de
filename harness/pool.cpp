// Entry points only: bodies come from /repo/include/dottorrent/object_pool.hpp (and libstdc++'s shared_ptr, which is executed too).
#include <cstdint>
#include <functional>
#include <new>
#include "dottorrent/object_pool.hpp"
// managed objects: construction, recycling and destruction are observed
extern "C" { void vc_obj_made(void*); void vc_obj_gone(void*); void vc_recycled(void*); void vc_havoc(void* pool, void* idle1, void* idle2); void vc_got(void* handle, void* object); void vc_back(void* object); void vc_failed(); void vc_none(void* object); }
struct R { unsigned long v; R() : v(0) { vc_obj_made(this); } ~R() { vc_obj_gone(this); } };
struct S : std::enable_shared_from_this<S> { unsigned long v; S() : v(0) { vc_obj_made(this); } ~S() { vc_obj_gone(this); } };
struct observed { using value_type = R; using value_ptr = std::shared_ptr<R>; static value_ptr construct() { return std::make_shared<R>(); } static void recycle(value_ptr& p) { vc_recycled(p.get()); } };
struct observedS { using value_type = S; using value_ptr = std::shared_ptr<S>; static value_ptr construct() { return std::make_shared<S>(); } static void recycle(value_ptr& p) { vc_recycled(p.get()); } };
typedef dottorrent::pool::object_pool<R, observed> P;
typedef dottorrent::pool::object_pool<R> D;
typedef dottorrent::pool::object_pool<S, observedS> E;
// one request and release, from any state of the pool (vc_havoc) or from a fresh pool
template <class Pool, class T> static void round(std::ptrdiff_t n, int how, bool any) {
    std::shared_ptr<T> i1, i2;
    if (any) { i1 = std::make_shared<T>(); i2 = std::make_shared<T>(); }
    { Pool p(n);
      if (any) vc_havoc(&p, &i1, &i2);
      auto h = p.get(); T* o = h.get(); vc_got(&h, o); o->v = 1;
      if (how == 0) { h.reset(); vc_back(o); }
      else if (how == 1) { auto c = h; h.reset(); c->v = 2; c.reset(); vc_back(o); }
      else if (how == 2) { { Pool q(std::move(p)); } h->v = 3; h.reset(); }
      else if (how == 3) { h.reset(); vc_back(o); h = p.get(); vc_got(&h, h.get()); h->v = 4; }
      else if (how == 4) { Pool q(std::move(p)); h.reset(); vc_back(o); }
      else if (how == 6) { std::weak_ptr<T> w(h); { Pool q(std::move(p)); } h->v = 6; h.reset(); vc_none(o); }
      else if (how == 5) { std::shared_ptr<unsigned long> part(h, &h->v); h.reset(); *part = 5; part.reset(); vc_back(o); }
    }
}
template <class Pool, class T> static void fault(std::ptrdiff_t n) {
    std::shared_ptr<T> i1 = std::make_shared<T>(), i2 = std::make_shared<T>();
    Pool p(n); vc_havoc(&p, &i1, &i2);
    try { auto h = p.get(); vc_got(&h, h.get()); } catch (const std::bad_alloc&) { vc_failed(); }
}
extern "C" {
extern const unsigned long vc_psize; const unsigned long vc_psize = sizeof(P);
void vc_ctor(P* p, std::ptrdiff_t n) { new (p) P(n); }
void vc_ctor2(P* p, std::ptrdiff_t n, std::ptrdiff_t k) { new (p) P(n, k); }
std::ptrdiff_t vc_size(std::ptrdiff_t n) { P p(n); std::shared_ptr<R> i1 = std::make_shared<R>(), i2 = std::make_shared<R>(); vc_havoc(&p, &i1, &i2); return p.size(); }
void vc_round_P(std::ptrdiff_t n, int how, bool any) { round<P, R>(n, how, any); }
void vc_round_D(std::ptrdiff_t n, int how, bool any) { round<D, R>(n, how, any); }
void vc_round_E(std::ptrdiff_t n, int how, bool any) { round<E, S>(n, how, any); }
void vc_fault_P(std::ptrdiff_t n) { fault<P, R>(n); }
void vc_fault_E(std::ptrdiff_t n) { fault<E, S>(n); }
}
