// P05 reader-writer lock, P06 thread pool, P07 parallel loops.
#undef TS_DISABLE_PARALLEL
#include "scn.h"
#include <atomic>
#include "utils/mutex.h"
#include "utils/box.h"
#include "runtime/inside/thread_pool.h"
#include "runtime/inside/parallel.h"
using namespace scn;

// ------------------------------------------------------------------ P05
namespace {
struct RwWorld {
    ts::rwmutex m;
    int readers = 0, writers = 0;      // oracle state, only touched inside Quiet
    uint64_t value[2] = {0, 0};        // protected data, seen by the race detector
    uint64_t reads = 0, writes = 0, max_readers = 0;
};
void rw_body(RwWorld &w, const std::vector<int> &acts, int first_op) {
    for (size_t i = 0; i < acts.size(); ++i) {
        if (!sim::op_enabled(first_op + (int)i)) continue;
        int a = acts[i];
        auto rd_in = [&] { sim::Quiet q; ++w.readers; if ((uint64_t)w.readers > w.max_readers) w.max_readers = w.readers; SIM_CHECK(w.writers == 0, "exclusion", "a reader entered while %d writer(s) hold the lock", w.writers); };
        auto rd_out = [&] { sim::Quiet q; SIM_CHECK(w.writers == 0, "exclusion", "a writer entered while a reader holds the lock"); --w.readers; ++w.reads; };
        auto wr_in = [&] { sim::Quiet q; ++w.writers; SIM_CHECK(w.writers == 1 && w.readers == 0, "exclusion", "a writer entered with %d writers and %d readers inside", w.writers, w.readers); };
        auto wr_out = [&] { sim::Quiet q; SIM_CHECK(w.writers == 1 && w.readers == 0, "exclusion", "somebody entered while a writer holds the lock (%d writers, %d readers)", w.writers, w.readers); --w.writers; ++w.writes; };
        auto rd_do = [&](int hold) { for (int k = 0; k <= hold; ++k) { SIM_CHECK(w.value[0] == w.value[1], "torn-read", "a reader saw a half-made write"); } };
        auto wr_do = [&](int hold) { for (int k = 0; k <= hold; ++k) { ++w.value[0]; ++w.value[1]; } };
        int hold = a >> 4;
        switch (a & 15) {
            case 0: { w.m.lock_read(); rd_in(); rd_do(hold); rd_out(); w.m.release_read(); break; }
            case 1: { w.m.lock_write(); wr_in(); wr_do(hold); wr_out(); w.m.release_write(); break; }
            case 2: { ts::unique_read_lock<ts::rwmutex> l(w.m); rd_in(); rd_do(hold); rd_out(); break; }
            case 3: { ts::unique_write_lock<ts::rwmutex> l(w.m); wr_in(); wr_do(hold); wr_out(); break; }
            case 4: { std::unique_ptr<ts::unique_write_lock<ts::rwmutex>> p;
                { ts::unique_write_lock<ts::rwmutex> l(w.m); wr_in(); p.reset(new ts::unique_write_lock<ts::rwmutex>(std::move(l))); }
                wr_do(hold); wr_out(); break; }
            case 5: { std::unique_ptr<ts::unique_read_lock<ts::rwmutex>> p;
                { ts::unique_read_lock<ts::rwmutex> l(w.m); rd_in(); p.reset(new ts::unique_read_lock<ts::rwmutex>(std::move(l))); }
                rd_do(hold); rd_out(); break; }
            case 6: { try { ts::unique_write_lock<ts::rwmutex> l(w.m); wr_in(); wr_do(hold); wr_out(); throw 1; } catch (int) {} break; }
        }
    }
}
}
SCENARIO(rwlock, "P05") {
    auto &r = sim::rng();
    sim::opt().spurious = r.chance(0.5) ? r.unit() * 0.4 : 0;
    sim::schedule_from_seed();
    RwWorld w;
    int n = (int)r.range(2, 6), op = 0;
    int writer_bias = (int)r.below(4);
    std::vector<std::function<void()>> fs;
    std::vector<std::vector<int>> acts(n);
    for (int t = 0; t < n; ++t) {
        int k = (int)r.range(1, 8);
        for (int i = 0; i < k; ++i) {
            static const int rd[] = {0, 2, 5}, wr[] = {1, 3, 4, 6};
            bool write = writer_bias == 0 ? t == 0 : writer_bias == 1 ? r.chance(0.5) : writer_bias == 2 ? t != 0 : r.chance(0.15);
            acts[t].push_back((write ? wr[r.below(4)] : rd[r.below(3)]) | (int)r.below(4) << 4);
        }
        int first = op; op += k; sim::op_mark(op - 1);
        fs.push_back([&w, &acts, t, first] { rw_body(w, acts[t], first); });
    }
    threads(fs);
    sim::cover(sim::mix(w.max_readers, n * 100 + writer_bias));
    SIM_CHECK(w.readers == 0 && w.writers == 0, "oracle", "unbalanced");
    SIM_CHECK(w.value[0] == w.value[1], "lost-update", "values differ");
    // the lock is free again
    w.m.lock_write(); w.m.release_write(); w.m.lock_read(); w.m.release_read();
}
// a reader that holds the lock lets other readers in while no writer waits, and a write is never lost
SCENARIO(rwlock_progress, "P05") {
    auto &r = sim::rng();
    sim::opt().spurious = r.chance(0.3) ? 0.2 : 0;
    sim::schedule_from_seed();
    ts::rwmutex m;
    int n = (int)r.range(2, 5);
    std::mutex g; std::condition_variable cv; int in = 0;
    std::vector<std::function<void()>> fs;
    for (int t = 0; t < n; ++t) fs.push_back([&] {       // all readers inside at the same time
        ts::unique_read_lock<ts::rwmutex> l(m);
        std::unique_lock<std::mutex> x(g);
        ++in; cv.notify_all();
        cv.wait(x, [&] { return in == n; });
    });
    threads(fs);
    uint64_t total = 0; int each = (int)r.range(1, 4);
    fs.clear();
    int k = (int)r.range(2, 5);
    for (int t = 0; t < k; ++t) fs.push_back([&] { for (int i = 0; i < each; ++i) { ts::unique_write_lock<ts::rwmutex> l(m); uint64_t v = total; if (i & 1) sim::yield_point(); total = v + 1; } });
    fs.push_back([&] { for (int i = 0; i < each; ++i) { ts::unique_read_lock<ts::rwmutex> l(m); SIM_CHECK(total <= (uint64_t)k * each, "lost-update", "impossible value"); } });
    threads(fs);
    SIM_CHECK(total == (uint64_t)k * each, "lost-update", "%d writers made %d updates each, %lu arrived", k, each, (unsigned long)total);
}

// ------------------------------------------------------------------ P06
namespace {
struct TaskRec { int runs = 0, afters = 0; int worker = -1; bool done = false; bool want_after = false; };
struct PoolWorld {
    std::vector<TaskRec> t;
    std::vector<int> inside;           // per worker number
    uint64_t payload[64] = {};         // written by the task, read after join: checked for ordering by the race detector
};
std::function<void(int)> make_task(PoolWorld &w, int id, int len, int workers) {
    return [&w, id, len, workers](int sig) {
        { sim::Quiet q;
          SIM_CHECK(sig >= 0 && sig < (workers ? workers : 1), "bad-worker", "a task was given worker number %d of %d", sig, workers);
          SIM_CHECK(++w.inside[sig] == 1, "worker-overlap", "two tasks run at the same time as worker %d", sig);
          SIM_CHECK(++w.t[id].runs == 1, "task-twice", "task %d ran %d times", id, w.t[id].runs);
          w.t[id].worker = sig; }
        for (int i = 0; i < len; ++i) w.payload[id] += i + 1;
        if (len == 3) std::this_thread::sleep_for(std::chrono::milliseconds(5));
        { sim::Quiet q; --w.inside[sig]; w.t[id].done = true; }
    };
}
std::function<void(int)> make_after(PoolWorld &w, int id) {
    return [&w, id](int sig) { sim::Quiet q;
        SIM_CHECK(w.t[id].done && w.t[id].runs == 1, "after-early", "the completion callback of task %d ran before the task finished", id);
        SIM_CHECK(++w.t[id].afters == 1, "after-twice", "the completion callback of task %d ran twice", id);
        SIM_CHECK(w.t[id].worker == sig, "after-worker", "the completion callback of task %d got worker %d, the task %d", id, sig, w.t[id].worker); };
}
void check_done(PoolWorld &w, const std::vector<int> &ids, const char *when) {
    for (int id : ids) {
        uint64_t v = w.payload[id]; (void)v;       // ordered by join
        sim::Quiet q;
        SIM_CHECK(w.t[id].done && w.t[id].runs == 1, "not-finished", "task %d had not finished when %s returned (ran %d times)", id, when, w.t[id].runs);
        SIM_CHECK(!w.t[id].want_after || w.t[id].afters == 1, "after-missing", "the completion callback of task %d had not run when %s returned", id, when);
    }
}
}
SCENARIO(pool, "P06") {
    auto &r = sim::rng();
    sim::opt().spurious = r.chance(0.4) ? r.unit() * 0.3 : 0;
    sim::schedule_from_seed();
    PoolWorld w;
    int workers = (int)r.below(5), subs = (int)r.range(1, 3), op = 0, next = 0;
    w.inside.assign(8, 0);
    if (workers == 0) subs = 1;          // without workers the task runs in the caller, as number 0
    std::vector<std::vector<int>> plan(subs);      // task id, or -1 join, -2 busy
    struct Act { int kind, id, len, op; };
    std::vector<std::vector<Act>> acts(subs);
    for (int s = 0; s < subs; ++s) {
        int k = (int)r.range(1, 7);
        for (int i = 0; i < k; ++i) {
            double u = r.unit();
            Act a; a.op = op++; a.len = (int)r.below(6);
            if (u < 0.75 && next < 40) { a.kind = r.chance(0.4) ? 1 : 0; a.id = next++; }
            else if (u < 0.92) { a.kind = 2; a.id = 0; }
            else { a.kind = 3; a.id = 0; }
            acts[s].push_back(a);
        }
    }
    if (op) sim::op_mark(op - 1);
    w.t.resize(next + 1);
    std::vector<int> all;
    bool final_join = r.chance(0.4);
    {
        std::unique_ptr<ts::ThreadPool> pool(new ts::ThreadPool(workers));
        SIM_CHECK(pool->size() == (size_t)workers, "size", "pool of %d has size %lu", workers, (unsigned long)pool->size());
        std::vector<std::function<void()>> fs;
        std::vector<std::vector<int>> mine(subs);
        for (int s = 0; s < subs; ++s) fs.push_back([&, s] {
            for (auto &a : acts[s]) {
                if (!sim::op_enabled(a.op)) continue;
                if (a.kind <= 1) {
                    w.t[a.id].want_after = a.kind == 1 && workers > 0;
                    mine[s].push_back(a.id);
                    if (a.kind) pool->run(make_task(w, a.id, a.len, workers), make_after(w, a.id));
                    else pool->run(make_task(w, a.id, a.len, workers));
                } else if (a.kind == 2) { pool->join(); check_done(w, mine[s], "join"); }
                else pool->busy();
            }
        });
        if (subs == 1) fs[0](); else threads(fs);
        for (auto &m : mine) all.insert(all.end(), m.begin(), m.end());
        if (final_join) { pool->join(); check_done(w, all, "join"); SIM_CHECK(!pool->busy() , "busy", "an idle pool says it is busy"); }
    }   // destruction
    check_done(w, all, "destruction");
    sim::cover(sim::mix(workers * 8 + subs, all.size() * 2 + final_join));
    sim::tag("pool_tasks", all.size());
}
// one worker object used directly: run, join, run, destroy
SCENARIO(pool_worker, "P06") {
    auto &r = sim::rng();
    sim::opt().spurious = r.chance(0.4) ? 0.2 : 0;
    sim::schedule_from_seed();
    PoolWorld w; w.inside.assign(8, 0);
    int k = (int)r.range(0, 4); w.t.resize(k + 1);
    bool join_last = r.chance(0.3);
    std::vector<int> ids;
    {
        ts::Thread th;
        for (int i = 0; i < k; ++i) {
            w.t[i].want_after = r.chance(0.5);
            ids.push_back(i);
            if (w.t[i].want_after) th.run(1, make_task(w, i, (int)r.below(5), 4), make_after(w, i)); else th.run(1, make_task(w, i, (int)r.below(5), 4));
            if (i + 1 < k || join_last) { th.join(); check_done(w, ids, "join"); }
        }
    }
    check_done(w, ids, "destruction");
}
// several pools one after another in threads, each destroyed while tasks are queued
SCENARIO(pool_lifecycle, "P06") {
    auto &r = sim::rng();
    sim::schedule_from_seed();
    int nth = (int)r.range(1, 2);
    std::vector<std::function<void()>> fs;
    std::vector<uint64_t> seeds; for (int i = 0; i < nth; ++i) seeds.push_back(r.next());
    for (int t = 0; t < nth; ++t) fs.push_back([&, t] {
        Rng q(seeds[t]);
        for (int round = 0; round < 2; ++round) {
            PoolWorld w; w.inside.assign(8, 0);
            int workers = (int)q.below(4), k = (int)q.below(5); w.t.resize(k + 1);
            std::vector<int> ids;
            { ts::ThreadPool p(workers); for (int i = 0; i < k; ++i) { ids.push_back(i); p.run(make_task(w, i, (int)q.below(4), workers)); } }
            check_done(w, ids, "destruction");
        }
    });
    if (nth == 1) fs[0](); else threads(fs);
}

// ------------------------------------------------------------------ P07
namespace {
struct LoopWorld { int lo; std::vector<int> hits; std::vector<uint64_t> out; };
uint64_t f_of(int i) { return (uint64_t)(i + 1000) * 2654435761u; }
}
SCENARIO(parallel_loops, "P07") {
    auto &r = sim::rng();
    sim::opt().spurious = r.chance(0.3) ? 0.1 : 0;
    sim::schedule_from_seed();
    int workers = (int)r.below(6), loops = (int)r.range(1, 4);
    ts::ThreadPool pool(workers);
    bool bound = r.chance(0.9);
    std::unique_ptr<ts::ctx::bind<ts::ThreadPool>> b;
    if (bound) b.reset(new ts::ctx::bind<ts::ThreadPool>(pool));
    SIM_CHECK(ts::parallel_size() == (bound ? std::max<size_t>(workers, 1) : 1), "size", "parallel_size");
    Ops ops;
    for (int l = 0; l < loops; ++l) {
        bool en = ops.next();
        int begin = (int)r.range(-20, 20);
        int n = r.chance(0.2) ? (int)r.below(3) : (int)r.below(40);
        if (r.chance(0.05)) n = -(int)r.below(4);
        int end = begin + n, kind = (int)r.below(5);
        bool inc = r.chance(0.5);
        if (!en) continue;
        int m = n > 0 ? n : 0, pad = 4;
        LoopWorld w; w.lo = begin - pad; w.hits.assign(m + 2 * pad, 0); w.out.assign(m + 2 * pad, 0);
        int maxid = bound && workers > 1 ? workers : 1;
        int active[16] = {0};
        auto cell = [&](int id, int i) {
            { sim::Quiet q; SIM_CHECK(i >= begin && i < end, "out-of-range", "index %d visited by a loop over [%d,%d)", i, begin, end);
              SIM_CHECK(id >= 0 && id < maxid, "bad-worker", "worker number %d of %d", id, maxid);
              SIM_CHECK(++w.hits[i - w.lo] == 1, "visited-twice", "index %d of [%d,%d) visited twice (%d workers)", i, begin, end, workers); }
            w.out[i - w.lo] = f_of(i);
            if (inc) sim::yield_point();
        };
        auto span = [&](int id, int a, int e) {
            { sim::Quiet q; SIM_CHECK(id >= 0 && id < 16, "bad-worker", "worker number %d", id); SIM_CHECK(++active[id] == 1, "worker-overlap", "two bodies run at the same time as worker %d", id); }
            for (int i = a; i < e; ++i) cell(id, i);
            { sim::Quiet q; --active[id]; }
        };
        switch (kind) {
            case 0: ts::parallel_run([&](int id, int a, int e) { span(id, a, e); }, begin, end); break;
            case 1: ts::parallel_range([&](int id, const ts::Range &g) { span(id, g.first, g.second); }, begin, end); break;
            case 2: ts::parallel_run([&](int id, int a, int e) { span(id, a, e); }, begin, end, false); ts::parallel_sync(); break;
            case 3:
                TS_PARALLEL_FOR_BEGIN(i, begin, end)
                    cell(__parallel_id, i);
                TS_PARALLEL_FOR_END()
                TS_PARALLEL_SYNC
                break;
            case 4:
                TS_PARALLEL_RANGE_BEGIN(g, begin, end)
                    span(__parallel_id, g.first, g.second);
                TS_PARALLEL_RANGE_END()
                TS_PARALLEL_SYNC
                break;
        }
        for (int i = begin; i < end; ++i) {
            uint64_t v = w.out[i - w.lo];
            SIM_CHECK(v == f_of(i), "missed", "index %d of [%d,%d) was not done when the loop returned (%d workers, kind %d)", i, begin, end, workers, kind);
        }
        for (int i = 0; i < pad; ++i) SIM_CHECK(!w.out[i] && !w.out[m + pad + i], "out-of-range", "written outside");
        sim::cover(sim::mix(workers * 64 + kind, m));
    }
}
// the splitting used by every parallel loop: an exact partition, in order
SCENARIO(split_ranges, "P07") {
    auto &r = sim::rng();
    for (int k = 0; k < 50; ++k) {
        int a = (int)r.range(-1000, 1000), n = r.chance(0.5) ? (int)r.below(20) : (int)r.below(5000), bins = (int)r.range(1, 20);
        auto v = ts::split_bins(a, a + n, bins);
        int at = a;
        for (auto &p : v) { SIM_CHECK(p.first == at && p.second > p.first, "split", "split_bins(%d,%d,%d) has a part [%d,%d) after %d", a, a + n, bins, p.first, p.second, at); at = p.second; }
        SIM_CHECK(at == a + n, "split", "split_bins(%d,%d,%d) ends at %d", a, a + n, bins, at);
        SIM_CHECK((int)v.size() <= bins, "split", "split_bins(%d,%d,%d) gives %lu parts", a, a + n, bins, (unsigned long)v.size());
        sim::cover(sim::mix(n % bins, bins));
        size_t la = (size_t)r.below(1000), ln = (size_t)r.below(300), at2 = la;
        auto lv = ts::lsplit_bins(la, la + ln, bins);
        for (auto &p : lv) { SIM_CHECK(p.first == at2 && p.second > p.first, "split", "lsplit_bins(%lu,%lu,%d)", (unsigned long)la, (unsigned long)(la + ln), bins); at2 = p.second; }
        SIM_CHECK(at2 == la + ln && lv.size() <= (size_t)bins, "split", "lsplit_bins(%lu,%lu,%d) ends at %lu", (unsigned long)la, (unsigned long)(la + ln), bins, (unsigned long)at2);
    }
}
