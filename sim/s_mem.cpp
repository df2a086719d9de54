// P08 synchronised memory, P09 shared tensors, P14 memory pools.
#include "bench.h"
#include "core/controller.h"
#include "core/hard_memory.h"
#include "core/memory.h"
#include "core/sync/sync_controller.h"
#include "global/hard_allocator.h"
#include "global/hard_converter.h"
#include "memory/flow.h"
#include "memory/orz/pot.h"
#include "memory/orz/vat.h"
#include <atomic>
#include <condition_variable>
#include <deque>
#include <mutex>
using namespace scn;
using namespace bench;

extern void (*on_cpu_oom)();     // s_alloc.cpp
// ------------------------------------------------------------------ memory devices of the simulator
// Two device types with several ids each; their memory is ordinary simulated heap, every block is accounted for.
namespace dev {
struct Block { std::string type; int id; size_t size; };
static std::map<void *, Block> *blocks;                     // outstanding
static std::map<std::pair<uint64_t, std::string>, int> *conversions;   // (identity of the content, device) -> successful conversions
static int convert_fail_at, convert_seen;                   // fault plan: the n-th conversion fails
static std::map<int, int> *failed_in;                       // simulated thread -> faults it met
static std::map<int, int> *alloc_failed_in;

static void *allocator(const char *type, int id, size_t n, void *mem, size_t used) {
    sim::DeviceAlloc d;
    if (mem) {
        sim::Quiet q;
        auto it = blocks->find(mem);
        SIM_CHECK(it != blocks->end(), "release-unknown", "device %s:%d is asked to release %p, which it has not given out or already got back", type, id, mem);
        SIM_CHECK(it->second.type == type && it->second.id == id, "release-elsewhere", "device %s:%d is asked to release a block of %s:%d", type, id, it->second.type.c_str(), it->second.id);
    }
    void *out = nullptr;
    if (n == 0) {
        if (mem) { { sim::Quiet q; blocks->erase(mem); } std::free(mem); }
        return nullptr;
    }
    out = std::malloc(n);
    if (!out) { { sim::Quiet q; ++(*alloc_failed_in)[sim::self_id()]; } if (mem && !used) { { sim::Quiet q; blocks->erase(mem); } std::free(mem); } throw OutOfMemoryException(MemoryDevice(type, id), n); }
    std::memset(out, 0xcd, n);
    if (mem) {
        size_t keep; { sim::Quiet q; keep = std::min({n, used, (*blocks)[mem].size}); }
        if (used) std::memcpy(out, mem, keep);
        { sim::Quiet q; blocks->erase(mem); }
        std::free(mem);
    }
    { sim::Quiet q; (*blocks)[out] = {type, id, n}; }
    return out;
}
static void converter(const char *to, int dst_id, void *dst, const void *src, size_t n) {
    bool fail = false;
    {
        sim::Quiet q;
        if (++convert_seen == convert_fail_at) { fail = true; ++(*failed_in)[sim::self_id()]; sim::tag("fault_convert"); }
    }
    // half of it arrives before the fault
    size_t half = fail ? n / 2 : n;
    for (size_t k = 0; k < half; k += 16) { std::memcpy((char *)dst + k, (const char *)src + k, std::min<size_t>(16, half - k)); if (k % 64 == 0) sim::yield_point(); }
    if (fail) throw Exception("the copy between devices failed");
    sim::Quiet q;
    if (n >= 8) { uint64_t id; memcpy(&id, src, 8); ++(*conversions)[{id, std::string(to) + ":" + std::to_string(dst_id)}]; }
}
static void setup() {
    on_cpu_oom = [] { sim::Quiet q; ++(*alloc_failed_in)[sim::self_id()]; };
    blocks = new std::map<void *, Block>; conversions = new std::map<std::pair<uint64_t, std::string>, int>; failed_in = new std::map<int, int>; alloc_failed_in = new std::map<int, int>;
    static const char *types[] = {"simA", "simB"};
    static const char *all[] = {"simA", "simB", "cpu"};
    for (auto t : types) HardAllocator::Register(DeviceType(t), [t](int id, size_t n, void *mem, size_t used) { return allocator(t, id, n, mem, used); });
    for (auto a : all) for (auto b : all) {
        if (a == all[2] && b == all[2]) continue;
        HardConverter::Register(DeviceType(a), DeviceType(b), [a](int dst_id, void *dst, int, const void *src, size_t n) { converter(a, dst_id, dst, src, n); });
    }
}
static sim::InitReg reg(setup);
static MemoryDevice at(int k) {
    switch (k) { case 0: return MemoryDevice(CPU, 0); case 1: return MemoryDevice("simA", 0); case 2: return MemoryDevice("simA", 1); default: return MemoryDevice("simB", 0); }
}
static size_t outstanding() { sim::Quiet q; return blocks->size(); }
static size_t outstanding_bytes() { sim::Quiet q; size_t n = 0; for (auto &b : *blocks) n += b.second.size; return n; }
static void reset() { sim::Quiet q; blocks->clear(); conversions->clear(); convert_fail_at = convert_seen = 0; failed_in->clear(); alloc_failed_in->clear(); }
static int faults_here() { sim::Quiet q; auto me = sim::self_id(); return (*failed_in)[me] + (*alloc_failed_in)[me]; }
}
static void leak_twice(const std::function<void(Rng)> &fn, uint64_t salt) {
    Rng r = sim::rng().fork(salt);
    for (int round = 0; round < 2; ++round) {
        dev::reset();
        uint64_t mark = sim::heap_mark();
        fn(r);
        SIM_CHECK(dev::outstanding() == 0, "leak", "%zu blocks of device memory were never returned", dev::outstanding());
        std::string desc;
        size_t n = sim::heap_live_since(mark, &desc);
        if (n == 0) break;
        SIM_CHECK(round == 0, "leak", "%zu blocks are still allocated after everything was released: %s", n, desc.c_str());
        sim::tag("leak_check_repeated");
    }
}

// ------------------------------------------------------------------ P08
static void sync_views_run(Rng r) {
    using Flow = HypeSyncMemoryController<FlowMemoryController>;
    int nm = (int)r.range(1, 3), nt = (int)r.range(2, 4);
    std::vector<SyncMemoryController::shared> controllers;
    if (r.chance(0.4)) controllers.push_back(DynamicSyncMemoryController::Make(dev::at((int)r.below(4)), true));
    else if (r.chance(0.3)) controllers.push_back(Flow::Make(dev::at((int)r.below(4)), true));
    struct Mem { SyncMemory m; std::string data; size_t size; uint64_t id; int home; };
    std::vector<Mem> mems;
    for (int i = 0; i < nm; ++i) {
        size_t size = 8 + r.below(60);
        int home = (int)r.below(4);
        SyncMemory m = controllers.empty() || r.chance(0.3) ? SyncMemory(dev::at(home), size, true) : controllers[0]->alloc(dev::at(home), size);
        std::string data(size, 0);
        for (auto &c : data) c = char(r.next());
        uint64_t id = 1000 + i; memcpy(&data[0], &id, 8);
        std::memcpy(m.data(), data.data(), size);
        mems.push_back({m, data, size, id, home});
    }
    if (r.chance(0.4)) dev::convert_fail_at = (int)r.range(1, 6);
    bool oom = r.chance(0.35);
    if (oom) { sim::AllocFault a; a.device_only = true; a.fail_at = (uint64_t)r.range(1, 5); a.fail_count = (uint64_t)r.range(1, 2); sim::alloc_fault_arm(a); }
    std::map<std::pair<int, int>, const void *> where;      // (memory, device) -> storage; only touched in Quiet
    struct View { SyncMemory m; int mem, on; };
    auto check = [&](const View &v) {
        auto &o = mems[v.mem];
        SIM_CHECK(v.m.size() == o.size, "wrong-size", "a view of memory %d has %zu bytes instead of %zu", v.mem, v.m.size(), o.size);
        SIM_CHECK(v.m.device() == dev::at(v.on), "wrong-device", "a view of memory %d is on another device", v.mem);
        const void *p = v.m.data();
        sim::Quiet q;
        SIM_CHECK(sim::heap_valid(p, o.size), "dangling", "a view of memory %d on device %d refers to released storage", v.mem, v.on);
        auto &w = where[{v.mem, v.on}];
        SIM_CHECK(!w || w == p, "second-copy", "two views of memory %d on device %d have different storage", v.mem, v.on);
        w = p;
        SIM_CHECK(!memcmp(p, o.data.data(), o.size), "wrong-content", "a view of memory %d on device %d does not show its content", v.mem, v.on);
    };
    std::vector<std::function<void()>> fs;
    Ops ops;
    std::mutex m; std::condition_variable cv; int taken = 0;
    for (int t = 0; t < nt; ++t) {
        std::vector<std::pair<int, uint64_t>> plan;
        int n = (int)r.range(2, 7);
        for (int i = 0; i < n; ++i) { int k = ops.take(); uint64_t s = r.next(); if (sim::op_enabled(k)) plan.push_back({k, s}); }
        fs.push_back([&, plan] {
            std::vector<View> mine;
            for (size_t i = 0; i < mems.size(); ++i) mine.push_back({mems[i].m, (int)i, mems[i].home});
            { std::unique_lock<std::mutex> l(m); ++taken; cv.notify_all(); }
            for (auto &p : plan) {
                Rng q(p.second);
                if (mine.empty()) break;
                size_t k = q.below(mine.size());
                switch (q.below(8)) {
                    default: {
                        int on = (int)q.below(4);
                        int before = dev::faults_here();
                        try {
                            View v{mine[k].m.view(dev::at(on)), mine[k].mem, on};
                            check(v);
                            mine.push_back(v);
                            sim::tag("views");
                        } catch (const Exception &e) {
                            SIM_CHECK(dev::faults_here() > before, "unexpected-error", "a view failed without a fault in this thread: %s", e.what());
                            sim::tag("views_failed");
                        }
                        break;
                    }
                    case 0: { View c = mine[k]; check(c); break; }
                    case 1: check(mine[k]); mine.erase(mine.begin() + k); break;
                    case 2: { auto w = mine[k].m.weak_memory(); SIM_CHECK(w.size() == mems[mine[k].mem].size, "wrong-size", "weak memory has another size"); break; }
                    case 3: check(mine[k]); break;
                }
            }
            for (auto &v : mine) check(v);
            while (!mine.empty()) mine.pop_back();
        });
    }
    bool early = r.chance(0.4);
    std::vector<std::thread> ts;
    for (auto &f : fs) ts.emplace_back(f);
    if (early) {       // the threads keep the only references
        { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return taken == (int)ts.size(); }); }
        for (auto &x : mems) x.m = SyncMemory();
        controllers.clear();
    }
    for (auto &t : ts) t.join();
    if (oom) { uint64_t f = 0; sim::alloc_fault_disarm(&f); sim::tag("alloc_failures", f); }
    dev::convert_fail_at = 0;
    {
        sim::Quiet q;
        for (auto &c : *dev::conversions)
            SIM_CHECK(c.second <= 1, "converted-twice", "memory %d was converted %d times for device %s", int(c.first.first - 1000), c.second, c.first.second.c_str());
        sim::event(dev::conversions->size());
    }
    if (!early) {      // faults are over: every device can be reached; changed content is seen after a broadcast
        for (auto &x : mems) for (int d = 0; d < 4; ++d) { View v{x.m.view(dev::at(d)), int(&x - &mems[0]), d}; check(v); }
        for (auto &x : mems) {
            for (auto &c : x.data) c ^= 0x55;
            std::memcpy(x.m.data(), x.data.data(), x.size);
            x.m.broadcast();
            { sim::Quiet q; where.clear(); }
            for (int d = 0; d < 4; ++d) { View v{x.m.view(dev::at(d)), int(&x - &mems[0]), d}; check(v); }
        }
    }
}
SCENARIO(sync_views, "P08") {
    sim::schedule_from_seed();
    leak_twice(sync_views_run, 8);
}

// ------------------------------------------------------------------ P09
static void tensor_refs_run(Rng r) {
    using Flow = HypeSyncMemoryController<FlowMemoryController>;
    int nt = (int)r.range(2, 4), nb = (int)r.range(1, 3);
    struct Item { Tensor t; std::string want; };
    auto base = std::make_shared<std::vector<Item>>();
    std::vector<SyncMemoryController::shared> controllers;
    controllers.push_back(DynamicSyncMemoryController::Make(MemoryDevice(CPU, 0), true));
    for (int i = 0; i < nb; ++i) {
        Shape s = {(int)r.range(1, 4), (int)r.range(1, 4), 2};
        Tensor t;
        switch (r.below(5)) {
            default: t = zoo::rndf(r, s); break;
            case 0: { Tensor p; p.pack({zoo::rndf(r, s), zoo::rnd(r, INT32, {3}), zoo::rnd(r, UINT8, {2, 2})}); t = p; break; }
            case 1: t = Tensor(controllers[0], FLOAT32, s); zoo::fill(r, t); break;
            case 2: { auto f = Flow::Make(MemoryDevice(CPU, 0), false); t = Tensor(f, INT32, s); zoo::fill(r, t); break; }
            case 3: t = Tensor(); break;
        }
        base->push_back({t, zoo::bytes_of(t)});
    }
    // what is handed over to other threads
    std::mutex m; std::condition_variable cv; std::deque<Item> box; int taken = 0;
    auto check = [&](const Item &x, const char *what) {
        sim::Quiet q;
        for (size_t f = 0; f < x.t.fields_count(); ++f) {
            const Tensor y = x.t.packed() ? x.t.field(f) : x.t;
            size_t n = size_t(y.count()) * y.proto().type_bytes();
            SIM_CHECK(n == 0 || y.empty() || sim::heap_valid(y.data(), n), "dangling", "%s: the storage of a tensor was released while it is referenced", what);
        }
        SIM_CHECK(zoo::bytes_of(x.t) == x.want, "tensor-changed", "%s: the content of a tensor changed", what);
    };
    std::vector<std::function<void()>> fs;
    Ops ops;
    for (int t = 0; t < nt; ++t) {
        std::vector<uint64_t> plan;
        int n = (int)r.range(4, 12);
        for (int i = 0; i < n; ++i) { int k = ops.take(); uint64_t s = r.next(); if (sim::op_enabled(k)) plan.push_back(s); }
        fs.push_back([&, plan, base]() mutable {
            std::vector<Item> mine;
            for (auto &x : *base) mine.push_back(x);
            base.reset();
            { std::unique_lock<std::mutex> l(m); ++taken; cv.notify_all(); }
            for (auto s : plan) {
                Rng q(s);
                if (mine.empty()) {
                    std::unique_lock<std::mutex> l(m);
                    if (box.empty()) continue;
                    mine.push_back(std::move(box.front())); box.pop_front();
                }
                size_t k = q.below(mine.size());
                Item &x = mine[k];
                sim::tag("tensor_ops");
                switch (q.below(17)) {
                    case 0: { Item c = x; check(c, "copy"); mine.push_back(c); break; }
                    case 1: mine.erase(mine.begin() + k); break;
                    case 2: { Item c; c.t = x.t.flatten(); c.want = zoo::bytes_of(c.t); mine.push_back(c); break; }
                    case 3: { Item c; c.t = x.t.clone(); c.want = x.want; check(c, "clone"); mine.push_back(c); break; }
                    case 4: { Item c; c.t = x.t.field(q.below(x.t.fields_count())); c.want = zoo::bytes_of(c.t); mine.push_back(c); break; }
                    case 5: { Tensor p; p.pack({x.t.field(size_t(0)), mine[q.below(mine.size())].t.field(size_t(0))}); Item c{p, zoo::bytes_of(p)}; mine.push_back(c); break; }
                    case 6: { Item c{x.t.view(MemoryDevice(CPU, 0)), x.want}; check(c, "view"); mine.push_back(c); break; }
                    case 7: { Item c{std::move(x.t), x.want}; x = c; check(x, "move"); break; }
                    case 8: { x.t = x.t; Item &y = mine[q.below(mine.size())]; y = x; check(y, "assign"); break; }
                    case 9: { Tensor w = x.t.weak(); Item c{w.strong(), x.want}; check(c, "weak and strong"); mine.push_back(c); break; }
                    case 10: { auto u = x.t.unpack(); Tensor p; p.pack(u); Item c{p, x.want}; check(c, "unpack"); mine.push_back(c); break; }
                    case 11: case 12: {    // hand over
                        Item c = x; mine.erase(mine.begin() + k);
                        std::unique_lock<std::mutex> l(m); box.push_back(std::move(c)); break;
                    }
                    case 13: case 14: {    // take over
                        std::unique_lock<std::mutex> l(m);
                        if (!box.empty()) { mine.push_back(std::move(box.front())); box.pop_front(); }
                        break;
                    }
                    case 15: {             // a private copy may be written
                        Item c{x.t.clone(), ""};
                        if (c.t.dtype() == FLOAT32 && !c.t.packed() && c.t.count()) c.t.data<float>()[0] = 7;
                        c.want = zoo::bytes_of(c.t); mine.push_back(c); break;
                    }
                    case 16: check(x, "use"); (void)zoo::bytes_of(x.t); break;
                }
            }
            for (auto &x : mine) check(x, "end");
        });
    }
    std::vector<std::thread> ts;
    for (auto &f : fs) ts.emplace_back(f);
    fs.clear();
    if (r.chance(0.6)) {
        { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return taken == (int)ts.size(); }); }
        base.reset(); controllers.clear();
    }
    for (auto &t : ts) t.join();
    for (auto &x : box) check(x, "left over");
    box.clear();
    sim::event(taken);
}
SCENARIO(tensor_refs, "P09") {
    sim::schedule_from_seed();
    leak_twice(tensor_refs_run, 9);
}
// Outputs of a workbench are released by other threads while it goes on running or is destroyed.
static void outputs_elsewhere_run(Rng r) {
    default_threads(1);
    zoo::Config c; c.max_ops = 3; c.max_count = 1500; c.p_big = 0;
    auto m = zoo::make(r, c);
    struct Item { Tensor t; std::string want; };
    std::mutex mx; std::condition_variable cv; std::deque<Item> box; bool done = false;
    int runs = (int)r.range(2, 4);
    std::vector<std::thread> ts;
    int nt = (int)r.range(1, 2);
    for (int t = 0; t < nt; ++t) {
        uint64_t s = r.next();
        ts.emplace_back([&, s] {
            Rng q(s);
            std::vector<Item> mine;
            while (true) {
                {
                    std::unique_lock<std::mutex> l(mx);
                    cv.wait(l, [&] { return done || !box.empty(); });
                    if (box.empty()) break;
                    mine.push_back(std::move(box.front())); box.pop_front();
                }
                { sim::Quiet qq; for (auto &x : mine) SIM_CHECK(zoo::bytes_of(x.t) == x.want, "output-changed", "an output changed in the thread that holds it"); }
                if (q.chance(0.7)) { mine.erase(mine.begin() + q.below(mine.size())); sim::tag("released_elsewhere"); }
            }
            { sim::Quiet qq; for (auto &x : mine) SIM_CHECK(zoo::bytes_of(x.t) == x.want, "output-changed", "an output changed in the thread that holds it"); }
        });
    }
    {
        auto b = Workbench::Load(m.module, cpu(), "");
        Out first;
        for (int i = 0; i < runs; ++i) {
            for (auto &in : m.inputs) b->input(in.name, zoo::deep(in.base));
            b->run();
            auto o = read_outputs(*b);
            if (i == 0) first = o;
            SIM_CHECK(o.same(first), "history-dependent", "run %d: %s", i, where_differs(o, first).c_str());
            for (int k = 0; k < b->output_count(); ++k) { Tensor t = b->output(k); std::unique_lock<std::mutex> l(mx); box.push_back({t, o.bytes[k]}); cv.notify_one(); }
        }
    }
    { std::unique_lock<std::mutex> l(mx); done = true; cv.notify_all(); }
    for (auto &t : ts) t.join();
    box.clear();
}
SCENARIO(outputs_elsewhere, "P09") {
    default_threads(1);
    sim::schedule_from_seed();
    leak_twice(outputs_elsewhere_run, 10);
}

// ------------------------------------------------------------------ P14
namespace {
// A live block as its owner sees it.
struct Live { Memory m; std::string data; };
void fill(Rng &q, Live &l) { l.data.resize(l.m.size()); for (auto &c : l.data) c = char(q.next()); if (!l.data.empty()) std::memcpy(l.m.data(), l.data.data(), l.data.size()); }
}
static void check_live(const std::vector<Live> &live, const char *when) {
    sim::Quiet q;
    std::map<const char *, size_t> at;
    for (auto &l : live) {
        size_t n = l.m.size();
        if (!n) continue;
        SIM_CHECK(sim::heap_valid(l.m.data(), n), "dangling", "%s: a block of %zu bytes is not (completely) allocated", when, n);
        SIM_CHECK(!memcmp(l.m.data(), l.data.data(), n), "block-changed", "%s: the content of a block of %zu bytes changed", when, n);
        at[(const char *)l.m.data()] = n;
    }
    const char *end = nullptr;
    size_t count = 0; for (auto &l : live) count += l.m.size() != 0;
    SIM_CHECK(at.size() == count, "overlap", "%s: two live blocks have the same address", when);
    for (auto &a : at) { SIM_CHECK(!end || a.first >= end, "overlap", "%s: two live blocks overlap", when); end = a.first + a.second; }
}
static void pool_run(Rng r) {
    using Flow = HypeSyncMemoryController<FlowMemoryController>;
    int kind = (int)r.below(5);
    int d = (int)r.range(1, 3);
    auto device = dev::at(d);
    std::shared_ptr<VatMemoryController> vat;
    std::shared_ptr<DynamicMemoryController> dyn;
    SyncMemoryController::shared sync;
    switch (kind) {
        case 0: case 1: vat = std::make_shared<VatMemoryController>(device); break;
        case 2: dyn = std::make_shared<DynamicMemoryController>(device); break;
        case 3: sync = Flow::Make(device, r.chance(0.5)); break;
        case 4: sync = DynamicSyncMemoryController::Make(device, r.chance(0.5)); break;
    }
    std::vector<Live> live;
    std::vector<std::pair<SyncMemory, std::string>> slive;
    size_t peak = 0, biggest = 0;
    Ops ops;
    int n = (int)r.range(8, 60);
    size_t scale = r.chance(0.3) ? 8 : r.chance(0.5) ? 100 : 3000;
    for (int i = 0; i < n; ++i) {
        Rng q(r.next());
        bool grow = q.chance(0.58);
        if (!ops.next()) continue;
        bool have = vat || dyn || sync;
        if (grow && have) {
            size_t size = q.chance(0.07) ? 0 : q.chance(0.3) && !live.empty() ? live[q.below(live.size())].m.size() : 1 + q.below(scale);
            bool fail = q.chance(0.2);
            if (fail) { sim::AllocFault a; a.device_only = true; a.fail_at = 1; sim::alloc_fault_arm(a); }
            uint64_t fired = 0; bool threw = false;
            try {
                if (sync) {
                    SyncMemory m = sync->alloc(size);
                    if (fail) sim::alloc_fault_disarm(&fired);
                    SIM_CHECK(m.size() == size, "wrong-size", "a block of %zu bytes was asked for and one of %zu given", size, m.size());
                    std::string data(size, 0); for (auto &c : data) c = char(q.next());
                    if (size) std::memcpy(m.data(), data.data(), size);
                    slive.push_back({m, data});
                } else {
                    Live l{vat ? vat->alloc(size) : dyn->alloc(size), ""};
                    if (fail) sim::alloc_fault_disarm(&fired);
                    SIM_CHECK(l.m.size() == size, "wrong-size", "a block of %zu bytes was asked for and one of %zu given", size, l.m.size());
                    SIM_CHECK(l.m.device() == device, "wrong-device", "a block is on another device");
                    fill(q, l); live.push_back(l);
                }
                sim::tag("blocks");
            } catch (const Exception &e) { if (fail) sim::alloc_fault_disarm(&fired); threw = true; }
            SIM_CHECK(threw == (fired > 0), "unexpected-error", "allocating %zu bytes %s", size, threw ? "failed without a fault" : "succeeded although the device had no memory");
            if (fired) sim::tag("alloc_failures", fired);
            biggest = std::max(biggest, size);
        } else if (q.chance(0.08) && have && i > n / 2) {      // the controller goes first
            vat.reset(); dyn.reset(); sync.reset(); sim::tag("controller_first");
        } else if (!live.empty()) {
            size_t k = q.below(live.size());
            if (q.chance(0.2)) { Memory copy = live[k].m; live[k].m = Memory(); Live l{copy, live[k].data}; live[k] = l; }
            else live.erase(live.begin() + k);
        } else if (!slive.empty()) slive.erase(slive.begin() + q.below(slive.size()));
        check_live(live, "during a history");
        { std::vector<Live> x; sim::Quiet qq; for (auto &s : slive) x.push_back({s.first.weak_memory(), s.second}); check_live(x, "during a history"); }
        size_t now = 0; for (auto &l : live) now += l.m.size() != 0; for (auto &s : slive) now += s.first.size() != 0;
        peak = std::max(peak, now);
        // what is released is used again: no more blocks than were ever alive at once
        SIM_CHECK(dev::outstanding() <= peak + 1 && dev::outstanding_bytes() <= (peak + 1) * biggest, "not-recovered",
                  "the device has %zu blocks of %zu bytes out, although at most %zu blocks of at most %zu bytes were alive at once", dev::outstanding(), dev::outstanding_bytes(), peak, biggest);
        if (vat) SIM_CHECK(vat->summary() == dev::outstanding_bytes(), "summary", "the pool reports %llu bytes, the device gave out %zu", (unsigned long long)vat->summary(), dev::outstanding_bytes());
        sim::cover(sim::mix(kind, sim::mix(live.size() + slive.size(), dev::outstanding())));
    }
    vat.reset(); dyn.reset(); sync.reset();
    check_live(live, "after the controller");
    while (!live.empty()) { live.erase(live.begin() + r.below(live.size())); check_live(live, "teardown"); }
    slive.clear();
}
SCENARIO(pools, "P14") { leak_twice(pool_run, 14); }

// one block that is resized
static void hard_memory_run(Rng r) {
    struct Obj { std::shared_ptr<HardMemory> h; std::string data; };     // data: the prefix whose content is defined
    std::vector<Obj> objs;
    Ops ops;
    int n = (int)r.range(4, 25);
    auto check = [&](const char *when) {
        sim::Quiet q;
        for (auto &o : objs) {
            size_t c = o.h->capacity();
            SIM_CHECK(c == 0 || sim::heap_valid(o.h->data(), c), "dangling", "%s: a block claims %zu bytes that are not allocated", when, c);
            SIM_CHECK(o.data.size() <= c, "lost-capacity", "%s: a block has lost capacity", when);
            SIM_CHECK(o.data.empty() || !memcmp(o.h->data(), o.data.data(), o.data.size()), "block-changed", "%s: the content of a block changed", when);
        }
    };
    int d = (int)r.below(4);
    for (int i = 0; i < n; ++i) {
        Rng q(r.next());
        if (!ops.next()) continue;
        if (objs.empty() || q.chance(0.15)) { Obj o{std::make_shared<HardMemory>(dev::at(d)), ""}; objs.push_back(o); }
        size_t k = q.below(objs.size());
        auto &o = objs[k];
        size_t size = q.chance(0.1) ? 0 : 1 + q.below(80), old = o.h->capacity();
        bool fail = q.chance(0.25);
        uint64_t fired = 0;
        const char *what = "";
        int op = (int)q.below(9);
        if (fail) { sim::AllocFault a; a.device_only = true; a.fail_at = 1; sim::alloc_fault_arm(a); }
        try {
            switch (op) {
                default: what = "expect"; o.h->expect(size); break;
                case 0: what = "shrink"; o.h->shrink(size); break;
                case 1: case 2: what = "resize"; o.h->resize(size); break;
                case 3: what = "dispose"; o.h->dispose(); break;
                case 4: what = "move"; { auto h = std::make_shared<HardMemory>(std::move(*o.h)); o.h = h; } break;
                case 5: what = "move assignment"; { auto h = std::make_shared<HardMemory>(dev::at(d), size); *h = std::move(*o.h); o.h = h; } break;
                case 6: what = "swap"; if (objs.size() > 1) { auto &p = objs[(k + 1) % objs.size()]; o.h->swap(*p.h); std::swap(o.data, p.data); } break;
                case 7: what = "destruction"; objs.erase(objs.begin() + k); break;
            }
            if (fail) sim::alloc_fault_disarm(&fired);
            sim::tag("block_operations");
            if (op < 7) {
                auto &c = objs[k];
                size_t cap = c.h->capacity();
                if (op == 1 || op == 2) c.data.clear();
                if (!strcmp(what, "expect")) SIM_CHECK(cap >= size && cap >= old, "lost-capacity", "expect(%zu) leaves %zu bytes", size, cap);
                if (op == 0) { SIM_CHECK(cap == std::min(size, old), "lost-capacity", "shrink(%zu) of %zu bytes leaves %zu", size, old, cap); c.data.resize(std::min(c.data.size(), cap)); }
                if (op == 1 || op == 2) SIM_CHECK(cap == size, "lost-capacity", "resize(%zu) leaves %zu bytes", size, cap);
                if (op == 3) { c.data.clear(); SIM_CHECK(c.h->data() == nullptr, "not-disposed", "dispose leaves a block"); }
                if (op == 3) { c.h->expect(size); SIM_CHECK(c.h->capacity() >= size && (size == 0 || sim::heap_valid(c.h->data(), size)), "dangling", "a block cannot be used again after dispose"); }
                if (c.h->capacity() && q.chance(0.6)) { c.data.resize(c.h->capacity()); for (auto &b : c.data) b = char(q.next()); std::memcpy(c.h->data(), c.data.data(), c.data.size()); }
            }
        } catch (const Exception &) {
            if (fail) sim::alloc_fault_disarm(&fired);
            SIM_CHECK(fired, "unexpected-error", "%s(%zu) failed without a fault", what, size);
            sim::tag("alloc_failures", fired);
            // a failing resize may give up the old content, everything else keeps it
            if (op == 1 || op == 2) objs[k].data.clear();
        }
        check(what);
    }
    while (!objs.empty()) { objs.erase(objs.begin() + r.below(objs.size())); check("teardown"); }
}
SCENARIO(hard_memory, "P14") { leak_twice(hard_memory_run, 15); }

// the pool below the controllers
static void vat_run(Rng r) {
    int fails = 0;
    uint64_t out = 0;
    auto ator = [&](size_t n) -> std::shared_ptr<void> {
        if (fails && --fails == 0) throw OutOfMemoryException(MemoryDevice(CPU, 0), n);
        ++out;
        return std::shared_ptr<void>(std::malloc(n), [&](void *p) { --out; std::free(p); });
    };
    {
        Vat vat(ator), other(ator);
        std::map<char *, std::string> live, olive;
        auto check = [&](const char *when) {
            sim::Quiet q;
            for (auto *m : {&live, &olive}) {
                char *end = nullptr;
                for (auto &l : *m) {
                    SIM_CHECK(sim::heap_valid(l.first, l.second.size()), "dangling", "%s: a block is not allocated", when);
                    SIM_CHECK(!memcmp(l.first, l.second.data(), l.second.size()), "block-changed", "%s: the content of a block changed", when);
                    SIM_CHECK(!end || l.first >= end, "overlap", "%s: two blocks overlap", when);
                    end = l.first + l.second.size();
                }
            }
        };
        Ops ops;
        int n = (int)r.range(5, 50);
        bool deprecated = false;
        for (int i = 0; i < n; ++i) {
            Rng q(r.next());
            if (!ops.next()) continue;
            const char *what = "malloc";
            int op = (int)q.below(22);
            if (op >= 10 && op < 17) op = live.empty() ? 0 : 10;
            switch (op) {
                default: {
                    size_t size = 1 + q.below(q.chance(0.5) ? 16 : 300);
                    fails = q.chance(0.15) ? 1 : 0;
                    char *p = nullptr;
                    try { p = (char *)vat.malloc(size); } catch (const Exception &) { fails = 0; sim::tag("alloc_failures"); what = "failing malloc"; break; }
                    fails = 0;
                    SIM_CHECK(p && !live.count(p), "overlap", "a live block was handed out again");
                    std::string s(size, 0); for (auto &c : s) c = char(q.next());
                    std::memcpy(p, s.data(), size); live[p] = s;
                    sim::tag("blocks");
                    break;
                }
                case 10: { what = "free"; auto it = live.begin(); std::advance(it, q.below(live.size())); vat.free(it->first); live.erase(it); break; }
                case 17: { what = "free of a foreign pointer"; bool threw = false; try { vat.free((const void *)uintptr_t(0x1000 + 8 * q.below(4))); } catch (const Exception &) { threw = true; } SIM_CHECK(threw, "foreign-free", "releasing a foreign pointer was accepted"); break; }
                case 18: what = "clean"; vat.clean(); break;
                case 19: if (deprecated) break; what = "swap"; vat.swap(other); std::swap(live, olive); break;
                case 20: if (q.chance(0.3)) { what = "dispose"; live.clear(); vat.dispose(); } else if (!deprecated) { what = "reset"; live.clear(); vat.reset(); } break;
                case 21: if (q.chance(0.3)) { what = "deprecated"; vat.deprecated(); deprecated = true; } break;
            }
            check(what);
            SIM_CHECK(!deprecated || vat.summary() <= out * 300 + 300, "summary", "impossible summary");
        }
    }
    SIM_CHECK(out == 0, "leak", "%llu blocks were not returned", (unsigned long long)out);
}
SCENARIO(vat_pool, "P14") { leak_twice(vat_run, 16); }
