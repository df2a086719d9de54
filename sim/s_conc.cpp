// P10: threads with workbenches of their own that share model data.
#include "bench.h"
#include "module/io/sstream.h"
using namespace scn;
using namespace bench;

namespace {
struct Shared {
    World w;
    Workbench::shared common;            // never run while threads are alive; cloned by them
    Program::shared program;             // never run itself; cloned by the threads
    std::string bytes;                   // the saved model
    std::vector<ImageFilter::shared> filters;
};
struct Mine { Workbench::shared b; int conf = 0; bool params_ok = true; };
}
static void actor(Shared &S, uint64_t seed, int id, int nops, std::vector<int> enabled) {
    Rng q(seed);
    World &w = S.w;
    std::vector<Mine> mine;
    std::vector<std::pair<Tensor, std::string>> held;
    uint64_t h = 0;
    for (int i = 0; i < nops; ++i) {
        uint64_t s = q.next();
        if (!enabled[i]) continue;
        Rng r(s);
        int what = mine.empty() ? (int)r.below(4) : (int)r.below(14);
        switch (what) {
            case 0: case 1: mine.push_back({S.common->clone(), 0}); sim::tag("op_clone"); break;
            case 2: { Mine m; m.b = std::make_shared<Workbench>(cpu()); m.b->setup(S.program->clone()); mine.push_back(m); sim::tag("op_clone_program"); break; }
            case 3: mine.push_back({r.chance(0.5) ? w.load() : Workbench::Load(w.m.module, cpu(), w.options), 0}); sim::tag("op_load"); break;
            case 4: { size_t k = r.below(mine.size()); mine.push_back({mine[k].b->clone(), mine[k].conf}); sim::tag("op_clone_own"); break; }
            case 5: mine.erase(mine.begin() + r.below(mine.size())); sim::tag("op_destroy"); break;
            case 6: {
                Mine &m = mine[r.below(mine.size())];
                if (m.conf) break;
                int c = (int)r.below(w.confs.size());
                for (auto &p : w.confs[c].params) m.b->set_operator_param(p.first.first, p.first.second, tensor::from<float>(p.second));
                for (auto &f : w.confs[c].filters) m.b->bind_filter(w.m.inputs[f.first].name, r.chance(0.5) ? build(w.filters[f.second]) : S.filters[f.second]->clone());
                m.conf = c; sim::tag("op_reconfigure");
                break;
            }
            case 7: mine[r.below(mine.size())].b->runtime().set_computing_thread_number((int)r.range(1, 3)); break;
            default: {
                Mine &m = mine[r.below(mine.size())];
                int set = (int)r.below(w.sets.size());
                if (!w.usable[{m.conf, set}]) break;
                const Out &e = w.refs.at({m.conf, set});
                Out o = guarded([&] { w.set_inputs(*m.b, set, r.chance(0.6)); m.b->run(); return read_outputs(*m.b); });
                SIM_CHECK(o.same(e), "interference", "thread %d, configuration %d, inputs %d: %s", id, m.conf, set, where_differs(o, e).c_str());
                sim::tag(e.ok ? "runs" : "runs_failing");
                h = sim::mix(h, o.hash());
                if (o.ok && r.chance(0.3)) held.push_back({m.b->output(0), o.bytes[0]});
            }
        }
    }
    { sim::Quiet qq; for (auto &x : held) SIM_CHECK(zoo::bytes_of(x.first) == x.second, "interference", "thread %d: an output it holds changed", id); }
    sim::event(h);
}
static void concurrent(Rng r, bool big) {
    WorldConfig wc;
    wc.zoo.max_ops = big ? 6 : 3; wc.sets = 2; wc.confs = 2; wc.bad = r.chance(0.3);
    if (r.chance(0.5)) wc.zoo.only = "*";
    wc.zoo.max_count = big ? 4000 : 600; wc.zoo.side = big ? 8 : 5; wc.zoo.p_big = big ? 0.1 : 0;
    auto S = std::make_shared<Shared>();
    S->w = make_world(r, wc);
    S->common = S->w.load();
    if (r.chance(0.5)) for (auto &f : S->w.confs.back().filters) { (void)f; }
    S->program = S->common->compile(S->w.m.module, S->w.options);
    for (auto &f : S->w.filters) { S->filters.push_back(build(f)); Workbench tmp(cpu()); tmp.setup(tmp.compile(S->w.m.module)); tmp.bind_filter(0, S->filters.back()); }
    int nt = (int)r.range(2, 3);
    Ops ops;
    std::vector<std::function<void()>> fs;
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(2, 5);
        std::vector<int> en; for (int i = 0; i < n; ++i) en.push_back(ops.next());
        uint64_t s = r.next();
        fs.push_back([&S, s, t, n, en] { actor(*S, s, t, n, en); });
    }
    if (r.chance(0.2)) {       // the objects they came from go away while the threads work
        std::vector<std::thread> ts;
        auto &w = S->w;
        std::vector<Workbench::shared> bs;
        for (int t = 0; t < nt; ++t) bs.push_back(t % 2 ? S->common->clone() : w.load());
        for (int t = 0; t < nt; ++t) {
            auto b = bs[t]; uint64_t s = r.next();
            ts.emplace_back([b, s, t, &w] {
                Rng q(s);
                for (int i = 0; i < 2; ++i) {
                    int set = (int)q.below(w.sets.size());
                    if (!w.usable.at({0, set})) continue;
                    const Out &e = w.refs.at({0, set});
                    Out o = guarded([&] { w.set_inputs(*b, set, false); b->run(); return read_outputs(*b); });
                    SIM_CHECK(o.same(e), "interference", "thread %d (its origin is being destroyed), inputs %d: %s", t, set, where_differs(o, e).c_str());
                    sim::tag("runs");
                }
            });
        }
        bs.clear();
        S->common = nullptr; S->program = nullptr; S->w.m.module = nullptr; S->filters.clear();
        for (auto &t : ts) t.join();
        sim::tag("origin_destroyed");
    } else threads(fs);
    // alone again
    if (S->common) for (size_t s = 0; s < S->w.sets.size(); ++s) {
        if (!S->w.usable[{0, (int)s}]) continue;
        Out e = S->w.refs[{0, (int)s}];
        Out o = guarded([&] { S->w.set_inputs(*S->common, (int)s, true); S->common->run(); return read_outputs(*S->common); });
        SIM_CHECK(o.same(e), "interference", "the common workbench afterwards: %s", where_differs(o, e).c_str());
    }
}
static void concurrent_leakcheck(bool big) {
    default_threads(1);
    sim::schedule_from_seed();
    for (int round = 0; round < 2; ++round) {
        uint64_t mark = sim::heap_mark();
        concurrent(sim::rng(), big);
        std::string desc;
        size_t n = sim::heap_live_since(mark, &desc);
        if (n == 0) break;
        SIM_CHECK(round == 0, "leak", "%zu blocks are still allocated after everything was released: %s", n, desc.c_str());
        sim::tag("leak_check_repeated");
    }
}
SCENARIO(bench_concurrent, "P10") { concurrent_leakcheck(false); }
SCENARIO(bench_concurrent_big, "P10") { concurrent_leakcheck(true); }
