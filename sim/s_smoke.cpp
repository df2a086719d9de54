#include "sim.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <vector>
static int racy = 0;
SCENARIO(smoke_race, "SELF") {
    sim::schedule_from_seed();
    std::thread a([] { for (int i = 0; i < 10; ++i) ++racy; });
    std::thread b([] { for (int i = 0; i < 10; ++i) ++racy; });
    a.join(); b.join();
}
SCENARIO(smoke_ok, "SELF") {
    sim::schedule_from_seed();
    std::mutex m; std::condition_variable cv; int n = 0; std::vector<std::thread> v;
    for (int k = 0; k < 3; ++k) v.emplace_back([&] { for (int i = 0; i < 10; ++i) { std::unique_lock<std::mutex> l(m); ++n; cv.notify_all(); } });
    { std::unique_lock<std::mutex> l(m); while (n < 30) cv.wait(l); }
    for (auto &t : v) t.join();
    SIM_CHECK(n == 30, "wrong", "n=%d", n);
}
SCENARIO(smoke_atomicity, "SELF") {
    sim::schedule_from_seed();
    std::mutex m; int n = 0; std::vector<std::thread> v;
    for (int k = 0; k < 2; ++k) v.emplace_back([&] { for (int i = 0; i < 3; ++i) { int x; { std::lock_guard<std::mutex> l(m); x = n; } { std::lock_guard<std::mutex> l(m); n = x + 1; } } });
    for (auto &t : v) t.join();
    SIM_CHECK(n == 6, "lost-update", "n=%d", n);
}
SCENARIO(smoke_deadlock, "SELF") {
    sim::schedule_from_seed();
    std::mutex a, b;
    std::thread t([&] { std::lock_guard<std::mutex> x(a); std::lock_guard<std::mutex> y(b); });
    { std::lock_guard<std::mutex> x(b); std::lock_guard<std::mutex> y(a); }
    t.join();
}
SCENARIO(smoke_uaf, "SELF") {
    int *p = new int[4]; delete[] p; volatile int x = p[1]; (void)x;
}
