#include <thread>
#include <atomic>
#include <memory>
#include <unistd.h>
#include "drv.hpp"
#include "dottorrent/object_pool.hpp"
using namespace drv; using namespace dottorrent::pool;
static thread_local int arm = 0;      // the arm-th allocation from now fails
void* operator new(std::size_t n) { if (arm && --arm == 0) throw std::bad_alloc(); if (void* p = std::malloc(n)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
static std::atomic<long> deadline{0};
static long now_s() { return std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void watchdog() { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(50)); long d = deadline; if (d && now_s() > d) { std::printf("case: %s\nFAIL a request or release that could be served stays blocked\n", casebuf); std::fflush(stdout); _exit(1); } } }
static std::atomic<long> live{0}, peak{0}, recs{0}; static std::atomic<bool> refuse{false};
struct base { std::atomic<int> holders{0}; long recycled = 0; base() { if (refuse) throw std::bad_alloc(); long n = ++live; long p = peak; while (n > p && !peak.compare_exchange_weak(p, n)) {} } ~base() { --live; } };
struct R : base {}; struct S : base, std::enable_shared_from_this<S> {};
template <class T> struct pol { using value_type = T; using value_ptr = std::shared_ptr<T>; static value_ptr construct() { return std::make_shared<T>(); } static void recycle(value_ptr& p) { req(p != nullptr && p->holders == 0, "an object is recycled while held"); ++p->recycled; ++recs; } };
template <class T, class P> static void history(long cap, long init, uint64_t seed, int steps) {
    Rng r(seed); live = 0; peak = 0; recs = 0; refuse = false;
    std::vector<std::shared_ptr<T>> held; std::set<T*> idle; std::map<T*, long> rc; long releases = 0;
    auto pool = std::make_optional<object_pool<T, P>>(cap, init); if (init == 0 && r.coin()) pool.emplace(cap);
    req(live == init, "initial objects");
    auto drop = [&](size_t i) { T* o = held[i].get(); long c = std::count_if(held.begin(), held.end(), [&](auto& h) { return h.get() == o; }); bool last = c == 1; if (last) --o->holders;
        long before = recs; held.erase(held.begin() + i); if (pool) { if (last) { ++releases; req(recs == before + 1 || std::is_same_v<P, object_pool_policy<T>>, "a returned object is not recycled once"); idle.insert(o); } else req(recs == before, "recycled while still held"); } };
    auto distinct = [&] { std::set<T*> s; for (auto& h : held) s.insert(h.get()); return long(s.size()); };
    for (int i = 0; i < steps; ++i) {
        switch (r(7)) {
        case 0: case 1: case 2: if (pool && distinct() < cap) { bool hadidle = pool->size() > 0; long lv = live; auto h = pool->get(); req(h != nullptr, "no object"); req(h->holders++ == 0, "an object with two holders"); req(h.use_count() == 1, "handle count"); idle.erase(h.get());
            req(live == (hadidle ? lv : lv + 1), hadidle ? "created although an object was idle" : "not created"); held.push_back(std::move(h)); } break;
        case 3: case 4: if (!held.empty()) drop(r(held.size())); break;
        case 5: if (!held.empty()) held.push_back(held[r(held.size())]); break;
        case 6: if (pool && distinct() < cap && pool->size() == 0 && r.coin(2)) { refuse = true; bool t = false; try { auto h = pool->get(); } catch (const std::bad_alloc&) { t = true; } refuse = false; req(t, "a failed creation is not reported"); }
                else if (pool && distinct() < cap && r.coin(3)) { std::shared_ptr<T> h; arm = 1 + int(r(2)); bool t = false; try { h = pool->get(); } catch (const std::bad_alloc&) { t = true; } arm = 0; req(t || h, "no object"); if (h) { h->holders++; idle.erase(h.get()); held.push_back(std::move(h)); } }
                else if (pool && r.coin(12)) { object_pool<T, P> q(std::move(*pool)); pool.emplace(std::move(q)); } 
                else if (pool && r.coin(30)) { long d = distinct(); pool.reset(); req(live == d, "the pool's idle objects are not destroyed with it, or held ones are"); for (auto& h : held) req(h->holders == 1, "a handle became unusable"); idle.clear(); } break;
        }
        req(live <= cap, "more objects than the capacity"); if (pool) { long d = distinct(); req(pool->size() + d == live, "an object got lost"); }
    }
    if (r.coin()) { pool.reset(); std::weak_ptr<T> w; if (!held.empty()) w = held[0]; held.clear(); req(live == 0 && w.expired(), "an object released after its pool is gone stays"); } else { while (!held.empty()) drop(held.size() - 1); pool.reset(); }
    req(live == 0, "objects are left behind");
}
// one requesting thread, several returning threads
static void threads(long cap, int nret, int n, uint64_t seed) {
    live = 0; peak = 0; recs = 0; refuse = false;
    { object_pool<R, pol<R>> pool(cap); dottorrent::concurrent_queue<std::shared_ptr<R>> q(cap + 1); std::vector<std::thread> ts;
      for (int t = 0; t < nret; ++t) ts.emplace_back([&, t] { Rng r(seed + t); for (;;) { std::shared_ptr<R> h; q.pop(h); if (!h) return; if (r.coin(4)) std::this_thread::yield(); --h->holders; h.reset(); } });
      for (int i = 0; i < n; ++i) { auto h = pool.get(); req(h->holders++ == 0, "an object with two holders"); q.push(std::move(h)); }
      for (int t = 0; t < nret; ++t) q.push(std::shared_ptr<R>{}); for (auto& t : ts) t.join();
      req(peak <= cap, "more objects than the capacity"); req(recs == n, "not every return was recycled"); req(pool.size() == live, "an object got lost"); }
    req(live == 0, "objects are left behind");
}
static void blocked(long cap, long init) {
    live = 0; peak = 0; refuse = false; object_pool<R, pol<R>> pool(cap, init); std::vector<std::shared_ptr<R>> hs; for (long i = 0; i < cap; ++i) { hs.push_back(pool.get()); }
    std::atomic<bool> done{false}; std::thread t([&] { auto h = pool.get(); done = true; }); std::this_thread::sleep_for(std::chrono::milliseconds(3)); req(!done && live == cap, "a request beyond the capacity was served"); hs.pop_back(); t.join();
}
void run_case(const args& a) {
    static bool started = (std::thread(watchdog).detach(), true); (void)started; deadline = now_s() + 15;
    auto I = [&](size_t i) { return std::stoull(a.at(i)); };
    if (a[0] == "hist") { long c = I(2), k = I(3); uint64_t s = I(4); int n = int(I(5)); if (a[1] == "P") history<R, pol<R>>(c, k, s, n); else if (a[1] == "D") history<R, object_pool_policy<R>>(c, k, s, n); else history<S, pol<S>>(c, k, s, n); }
    else if (a[0] == "thr") threads(I(1), int(I(2)), int(I(3)), I(4)); else if (a[0] == "blocked") blocked(I(1), I(2)); else fail("unknown case");
    deadline = 0;
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    auto S = [](uint64_t x) { return std::to_string(x); };
    for (int c : {1, 2, 3}) for (int k = 0; k <= c; ++k) t({"blocked", S(c), S(k)});
    while (more()) { uint64_t c = 1 + r(5); if (r.coin(20)) t({"thr", S(c), S(1 + r(4)), S(50 + r(200)), S(r(1000))}); else { const char* ks[] = {"P", "D", "E"}; t({"hist", ks[r(3)], S(c), S(r(c + 1)), S(r.g() % 1000000), S(5 + r(80))}); } }
}
