#include <thread>
#include <atomic>
#include <deque>
#include <memory>
#include <unistd.h>
#include "drv.hpp"
#include "dottorrent/concurrent_queue.hpp"
using namespace drv; using namespace dottorrent;
static std::atomic<long> deadline{0};
static long now_s() { return std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void watchdog() { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(50)); long d = deadline; if (d && now_s() > d) { std::printf("case: %s\nFAIL a thread that could continue stays blocked\n", casebuf); std::fflush(stdout); _exit(1); } } }
static void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
template <class T> struct mk; 
template <> struct mk<long> { static long make(long i) { return i; } static long get(const long& v) { return v; } };
template <> struct mk<std::unique_ptr<long>> { static std::unique_ptr<long> make(long i) { return std::make_unique<long>(i); } static long get(const std::unique_ptr<long>& v) { return v ? *v : -77; } };
template <> struct mk<std::string> { static std::string make(long i) { return std::string(40, 'x') + std::to_string(i); } static long get(const std::string& v) { return v.size() < 41 ? -77 : std::stol(v.substr(40)); } };
template <class T> static void sequential(size_t cap, uint64_t seed, int steps) {
    concurrent_queue<T> q(cap); std::deque<long> o; Rng r(seed); long n = 0;
    for (int i = 0; i < steps; ++i) {
        req(q.size() == o.size(), "size");
        switch (r(7)) {
        case 0: case 1: { T v = mk<T>::make(++n); bool ok = q.try_push(std::move(v)); req(ok == (o.size() < cap), "try_push result"); if (ok) o.push_back(n); else req(mk<T>::get(v) == n, "a refused item was consumed"); break; }
        case 2: if (o.size() < cap) { T v = mk<T>::make(++n); q.push(std::move(v)); o.push_back(n); } break;
        case 3: if (o.size() < cap) { if constexpr (std::is_copy_constructible_v<T>) { const T v = mk<T>::make(++n); q.push(v); req(mk<T>::get(v) == n, "push(const&) modified its argument"); o.push_back(n); } } break;
        case 4: { T v = mk<T>::make(-5); bool ok = q.try_pop(v); req(ok == !o.empty(), "try_pop result"); if (ok) { req(mk<T>::get(v) == o.front(), "not the oldest element"); o.pop_front(); } else req(mk<T>::get(v) == -5, "failed try_pop modified its target"); break; }
        case 5: if (!o.empty()) { T v = mk<T>::make(-5); q.pop(v); req(mk<T>::get(v) == o.front(), "not the oldest element"); o.pop_front(); } break;
        case 6: if (r.coin(4)) { cap = r(6); q.set_capacity(cap); } break;
        } }
}
// n threads block, then the event that lets all of them continue happens once or item by item
static void wake(const std::string& how, int n) {
    concurrent_queue<long> q(how == "elem" ? 1000 : how == "full" ? 1 : 0); std::atomic<int> done{0}; std::vector<std::thread> ts;
    if (how == "full") q.push(1);
    for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { if (how == "elem" || how == "elemcap") { long v; q.pop(v); } else q.push(i); ++done; });
    nap(2000); req(done == 0, "a blocking call returned although the queue was empty or full");
    if (how == "elem") for (int i = 0; i < n; ++i) { if (i % 2) q.push(i); else { long v = i; req(q.try_push(std::move(v)), "try_push"); } if (i % 3 == 0) nap(100); }
    else if (how == "elemcap") { q.set_capacity(n); for (int i = 0; i < n; ++i) q.push(i); }
    else if (how == "room") q.set_capacity(n);
    else if (how == "full") for (int i = 0; i < n; ++i) { long v; if (i % 2) q.pop(v); else while (!q.try_pop(v)) nap(10); if (i % 3 == 0) nap(100); }
    for (auto& t : ts) t.join();
    req(done == n, "not every thread continued");
}
// n producers (consumers) block on a full (empty) queue; each single removal (insertion, capacity step) must let one of them continue
static void steps(const std::string& op, int n, size_t cap) {
    concurrent_queue<long> q(cap); std::atomic<int> done{0}; std::vector<std::thread> ts; bool cons = op.find("push") != std::string::npos;
    if (!cons) for (size_t i = 0; i < cap; ++i) q.push(long(i));
    if (op == "lower") q.set_capacity(cap / 2);
    for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { if (cons) { long v; q.pop(v); } else if (i % 2) q.push(long(i)); else { const long v = i; q.push(v); } ++done; });
    nap(1500); req(done == 0, "a blocking call returned although the queue was empty or full");
    if (op == "lower") { q.set_capacity(cap + n); while (done < n) nap(20); }
    else for (int i = 0; i < n; ++i) { long v = i; if (op == "pop") q.pop(v); else if (op == "trypop") req(q.try_pop(v), "try_pop"); else if (op == "cap") q.set_capacity(cap + i + 1); else if (op == "push") q.push(std::move(v)); else if (op == "cpush") { const long w = i; q.push(w); } else req(q.try_push(std::move(v)), "try_push"); while (done < i + 1) nap(20); }
    for (auto& t : ts) t.join();
}
static void mpmc(int P, int C, size_t cap, int n, uint64_t seed) {
    concurrent_queue<std::pair<int, long>> q(cap); std::atomic<bool> stop{false}; std::vector<std::thread> ts; std::vector<std::vector<std::pair<int, long>>> got(C);
    long total = long(P) * n; std::atomic<long> left{total};
    for (int p = 0; p < P; ++p) ts.emplace_back([&, p] { Rng r(seed + p); for (long i = 0; i < n; ++i) { std::pair<int, long> v{p, i}; switch (r(3)) { case 0: q.push(v); break; case 1: q.push(std::move(v)); break; default: while (!q.try_push(std::move(v))) std::this_thread::yield(); } } });
    for (int c = 0; c < C; ++c) ts.emplace_back([&, c] { Rng r(seed + 100 + c); for (;;) { long k = left.fetch_sub(1); if (k <= 0) return; std::pair<int, long> v; if (r.coin()) q.pop(v); else while (!q.try_pop(v)) std::this_thread::yield(); got[c].push_back(v); } });
    std::atomic<bool> bad{false}; std::thread mon([&] { while (!stop) { if (q.size() > cap) bad = true; std::this_thread::yield(); } });
    for (auto& t : ts) t.join(); stop = true; mon.join();
    req(!bad, "the queue held more than its capacity"); req(q.size() == 0, "elements left over");
    std::vector<std::vector<int>> cnt(P, std::vector<int>(n)); 
    for (auto& g : got) { std::vector<long> last(P, -1); for (auto& [p, i] : g) { req(p >= 0 && p < P && i >= 0 && i < n, "an element that was never pushed"); req(i > last[p], "FIFO order broken"); last[p] = i; ++cnt[p][i]; } }
    for (auto& c : cnt) for (int x : c) req(x == 1, "an element was lost or duplicated");
}
struct thrower { long v = 0; static thread_local bool on; thrower() = default; thrower(long x) : v(x) {} thrower(const thrower& o) : v(o.v) { if (on) throw std::runtime_error("copy"); } thrower& operator=(const thrower& o) { if (on) throw std::runtime_error("copy"); v = o.v; return *this; } };
thread_local bool thrower::on = false;
static void throwing() {
    concurrent_queue<thrower> q(4); thrower a(1), b(2); q.push(a); bool t = false; thrower::on = true; try { q.push(b); } catch (const std::runtime_error&) { t = true; } thrower::on = false;
    req(t, "an exception of the element was swallowed"); req(q.size() == 1, "a failed push changed the queue"); std::thread([&] { thrower c; q.pop(c); }).join(); req(q.size() == 0, "size");
}
static void bounded(size_t cap) {
    concurrent_queue<long> q(cap); for (size_t i = 0; i < cap; ++i) q.push(long(i)); std::atomic<bool> done{false};
    std::thread t([&] { q.push(99); done = true; }); nap(3000); req(!done && q.size() == cap, "push went beyond the capacity"); long v; if (cap) q.pop(v); else q.set_capacity(1); t.join(); req(q.size() == (cap ? cap : 1), "size after blocked push");
    q.set_capacity(0); long w = 5; req(!q.try_push(std::move(w)), "try_push beyond a reduced capacity");
}
void run_case(const args& a) {
    static bool started = (std::thread(watchdog).detach(), true); (void)started; deadline = now_s() + 15;
    auto I = [&](size_t i) { return std::stoull(a.at(i)); };
    if (a[0] == "seq") { if (a[1] == "long") sequential<long>(I(2), I(3), int(I(4))); else if (a[1] == "ptr") sequential<std::unique_ptr<long>>(I(2), I(3), int(I(4))); else sequential<std::string>(I(2), I(3), int(I(4))); }
    else if (a[0] == "wake") wake(a[1], int(I(2))); else if (a[0] == "steps") steps(a[1], int(I(2)), I(3)); else if (a[0] == "mpmc") mpmc(int(I(1)), int(I(2)), I(3), int(I(4)), I(5)); else if (a[0] == "throw") throwing(); else if (a[0] == "bounded") bounded(I(1)); else fail("unknown case");
    deadline = 0;
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    auto S = [](uint64_t x) { return std::to_string(x); };
    t({"throw"}); for (int c : {0, 1, 2, 5}) t({"bounded", S(c)});
    for (const char* h : {"elem", "elemcap", "room", "full"}) for (int n : {1, 2, 3, 5, 8}) t({"wake", h, S(n)});
    for (const char* h : {"pop", "trypop", "cap", "lower", "push", "cpush", "trypush"}) for (int n : {1, 3}) for (int c : {1, 2, 5}) t({"steps", h, S(n), S(c)});
    for (auto k : {"long", "ptr", "str"}) for (int c : {0, 1, 3}) t({"seq", k, S(c), S(c + 1), "200"});
    while (more()) { uint64_t x = r(11);
        if (x < 4) t({"mpmc", S(1 + r(4)), S(1 + r(4)), S(1 + r(4)), S(20 + r(300)), S(r(1000))});
        else if (x < 8) { const char* ks[] = {"long", "ptr", "str"}; t({"seq", ks[r(3)], S(r(5)), S(r.g() % 100000), "300"}); }
        else if (x == 10) { const char* hs[] = {"pop", "trypop", "cap", "lower", "push", "cpush", "trypush"}; t({"steps", hs[r(7)], S(1 + r(4)), S(1 + r(6))}); }
        else { const char* hs[] = {"elem", "elemcap", "room", "full"}; t({"wake", hs[r(4)], S(1 + r(8))}); } }
}
