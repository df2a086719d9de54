// P11 reuse, P13 held outputs, P18 thread counts, P19 nothing else changes, P20 hooks and profiling.
#include "bench.h"
using namespace scn;
using namespace bench;

// ------------------------------------------------------------------ P18
// One model, the same inputs: one thread, then several thread counts under a seeded schedule.
static void threads_bitwise_run(bool big, const char *only) {
    auto &r = sim::rng();
    default_threads(1);
    zoo::Config c;
    c.only = only; c.max_ops = only ? (r.chance(0.6) ? 1 : 3) : 6; c.p_big = big ? 0.9 : 0.3; c.max_count = big ? 20000 : 6000;
    if (r.chance(0.25)) c.image_input = true;
    auto m = zoo::make(r, c);
    std::string options;
    { static const char *opts[] = {"", "", "", "--no-pack", "--winograd"}; options = opts[r.below(5)]; }
    bool strict = r.chance(0.5);
    auto run = [&](int threads) {
        auto b = Workbench::Load(m.module, cpu(), options);
        b->runtime().set_computing_thread_number(threads);
        if (strict) unpooled(*b, 0);
        for (auto &i : m.inputs) b->input(i.name, zoo::deep(i.base));
        b->run();
        return read_outputs(*b);
    };
    Out ref = guarded([&] { return run(1); });
    sim::schedule_from_seed();
    static const int counts[] = {2, 3, 4, 5, 8};
    int k = counts[r.below(5)];
    sim::tag("thread_counts");
    Out o = guarded([&] { return run(k); });
    SIM_CHECK(o.same(ref), "thread-dependent", "%d computing threads instead of 1: %s", k, where_differs(o, ref).c_str());
    if (r.chance(0.4)) {       // the same workbench, changed counts
        auto b = Workbench::Load(m.module, cpu(), options);
        for (int j = 0; j < 2; ++j) {
            int n = (int)r.range(1, 6);
            b->runtime().set_computing_thread_number(n);
            for (auto &i : m.inputs) b->input(i.name, zoo::deep(i.base));
            Out p = guarded([&] { b->run(); return read_outputs(*b); });
            SIM_CHECK(p.same(ref), "thread-dependent", "after changing the workbench to %d threads: %s", n, where_differs(p, ref).c_str());
        }
    }
    sim::cover(sim::mix(k, ref.hash()));
    sim::event(ref.hash());
}
SCENARIO(threads_bitwise, "P18") { threads_bitwise_run(false, "*"); }
SCENARIO(threads_bitwise_big, "P18") { threads_bitwise_run(true, nullptr); }

// ------------------------------------------------------------------ P11
namespace {
struct Reuse {
    World &w; Rng &r;
    Workbench::shared b;
    Conf conf;
    int set = -1;
    std::vector<Workbench::shared> parents;
    bool stale_params = false;
    Reuse(World &w_, Rng &r_) : w(w_), r(r_) {}
};
}
SCENARIO(bench_reuse, "P11") {
    auto &r = sim::rng();
    default_threads(1);
    WorldConfig wc;
    wc.zoo.max_ops = 6; wc.sets = 3; wc.confs = 3;
    if (r.chance(0.5)) wc.zoo.only = "*";
    World w[2] = {make_world(r, wc), World()};
    bool two = r.chance(0.4);
    if (two) { wc.sets = 2; wc.confs = 1; wc.zoo.max_ops = 3; w[1] = make_world(r, wc); }
    sim::schedule_from_seed();

    struct Prog { Program::shared p; Conf conf; } prog[2];
    int cur = 0;
    auto b = w[0].load();
    if (two) prog[1].p = b->compile(w[1].m.module, w[1].options);
    prog[0].p = nullptr;     // taken by Load; compiled again when needed
    std::map<std::pair<int, std::pair<Conf, int>>, Out> memo;
    auto expect = [&](int which, const Conf &c, int set, bool &usable) -> Out {
        for (size_t k = 0; k < w[which].confs.size(); ++k) if (!(w[which].confs[k] < c) && !(c < w[which].confs[k])) {
            usable = w[which].usable[{(int)k, set}];
            return usable ? w[which].refs[{(int)k, set}] : Out();
        }
        usable = false; return Out();
    };
    int conf_i[2] = {0, 0};
    Ops ops;
    int n = (int)r.range(4, 12);
    std::vector<Workbench::shared> keep;
    for (int i = 0; i < n; ++i) {
        int what = (int)r.below(16);
        uint64_t s1 = r.next(), s2 = r.next();
        if (!ops.next()) continue;
        World &W = w[cur];
        Conf &conf = prog[cur].conf;
        Rng q(s1);
        switch (what) {
            default: {        // run
                int set = (int)q.below(W.sets.size());
                bool usable; Out e = expect(cur, conf, set, usable);
                if (!usable) break;
                Out o = guarded([&] { W.set_inputs(*b, set, true); b->run(); return read_outputs(*b); });
                sim::tag(e.ok ? "runs" : "runs_failing"); if (sim::verbose()) sim::note("%d run conf %d set %d model %d", i, conf_i[cur], set, cur);
                SIM_CHECK(o.same(e), "history-dependent", "operation %d, conf %d set %d of model %d: %s", i, conf_i[cur], set, cur, where_differs(o, e).c_str());
                break;
            }
            case 0: { int t = (int)q.range(1, 4); b->runtime().set_computing_thread_number(t); sim::tag("op_threads"); break; }
            case 1: case 2: { // change parameters and filters to those of another configuration
                int k = (int)q.below(W.confs.size());
                Conf to = W.confs[k];
                // parameters of the old configuration go back to their original values
                for (auto &p : conf.params) if (!to.params.count(p.first)) {
                    Node found = zoo::null_node();
                    for (auto &x : Module::list_reference_nodes(W.m.module->outputs())) if (x.first.bubble().name() == p.first.first) found = x.first;
                    b->set_operator_param(p.first.first, p.first.second, found.bubble().get(p.first.second));
                }
                for (auto &p : to.params) b->set_operator_param(p.first.first, p.first.second, tensor::from<float>(p.second));
                for (auto &f : conf.filters) if (!to.filters.count(f.first)) b->bind_filter(W.m.inputs[f.first].name, build(FilterSpec()));
                for (auto &f : to.filters) b->bind_filter(W.m.inputs[f.first].name, build(W.filters[f.second]));
                conf = to; conf_i[cur] = k;
                sim::tag("op_reconfigure");
                break;
            }
            case 3: {         // look at inner nodes
                int set = (int)q.below(W.sets.size());
                bool usable; Out e = expect(cur, conf, set, usable);
                if (!usable || W.m.op_nodes.empty()) break;
                std::vector<std::string> names;
                for (auto &nn : W.m.op_nodes) if (q.chance(0.4)) names.push_back(nn);
                W.set_inputs(*b, set, true);
                std::vector<std::string> hooked;
                Out o = guarded([&] { b->run_hook(names); Out x = read_outputs(*b); return x; });
                SIM_CHECK(o.same(e), "history-dependent", "run_hook, operation %d, conf %d set %d of model %d: %s", i, conf_i[cur], set, cur, where_differs(o, e).c_str());
                sim::tag("op_run_hook");
                break;
            }
            case 4: { b->do_profile(q.chance(0.5)); sim::tag("op_profile"); break; }
            case 5: {         // continue with a clone
                auto c = b->clone();
                if (q.chance(0.5)) keep.push_back(b);
                b = c; sim::tag("op_clone");
                prog[cur].p = nullptr;
                break;
            }
            case 6: {         // switch the program
                if (!two) break;
                cur ^= 1;
                if (!prog[cur].p || q.chance(0.3)) { prog[cur].p = b->compile(w[cur].m.module, w[cur].options); prog[cur].conf = Conf(); conf_i[cur] = 0; }
                b->setup(prog[cur].p);
                if (cur == 0) {} 
                sim::tag("op_switch_program");
                break;
            }
            case 7: { auto s = b->summary(); SIM_CHECK(!s.empty(), "summary", "empty summary"); break; }
            case 8: {         // an operator on its own in the middle
                Bubble bb("sigmoid", "extra");
                auto op = b->offline_create(bb, true);
                Tensor x = zoo::rndf(q, {2, 3}); std::vector<Tensor> out;
                b->offline_run(op, {x}, out);
                SIM_CHECK(out.size() == 1 && out[0].count() == 6, "offline", "wrong offline result");
                for (int k = 0; k < 6; ++k) SIM_CHECK(std::fabs(out[0].data<float>()[k] - 1 / (1 + std::exp(-x.data<float>()[k]))) < 1e-4, "offline", "wrong offline value");
                break;
            }
            case 9: {         // a failing offline call
                try { Bubble bb("conv2d", "extra"); b->offline_create(bb, true); } catch (const std::exception &) { sim::tag("op_failing_offline"); }
                break;
            }
        }
    }
    // at last, a good run
    for (size_t set = 0; set < w[cur].sets.size(); ++set) {
        bool usable; Out e = expect(cur, prog[cur].conf, (int)set, usable);
        if (!usable) continue;
        Out o = guarded([&] { w[cur].set_inputs(*b, (int)set, true); b->run(); return read_outputs(*b); });
        SIM_CHECK(o.same(e), "history-dependent", "final run, conf %d set %d: %s", conf_i[cur], (int)set, where_differs(o, e).c_str());
        sim::event(e.hash());
    }
}
