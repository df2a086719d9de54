// P13: outputs held by the caller; P19: nothing else changes; P20: hooks and profiling.
#include "bench.h"
#include "runtime/instruction.h"
#include "board/hook.h"
#include "board/profiler.h"
using namespace scn;
using namespace bench;

// ------------------------------------------------------------------ P13
// Outputs are held through later runs, reconfiguration and teardown in any order.
static void held_run(Rng r) {
    WorldConfig wc;
    wc.zoo.max_ops = 5; wc.sets = 3; wc.confs = 2; wc.bad = r.chance(0.3);
    wc.zoo.dup_outputs = true; wc.zoo.direct_outputs = true;
    if (r.chance(0.5)) wc.zoo.only = "*";
    auto w = std::make_shared<World>(make_world(r, wc));
    struct Held { Tensor t; std::string want; const char *what; };
    std::vector<Held> held;
    std::vector<Workbench::shared> benches{w->load()};
    std::vector<Program::shared> programs;
    Module::shared module = w->m.module;
    auto verify = [&](const char *when) {
        sim::Quiet q;
        for (auto &h : held) SIM_CHECK(zoo::bytes_of(h.t) == h.want, "output-changed", "an output (%s) changed: %s", h.what, when);
    };
    auto hold = [&](const Tensor &t, const char *what) { Held h{t, zoo::bytes_of(t), what}; held.push_back(h); sim::tag("held_outputs"); };
    int n = (int)r.range(4, 12);
    Ops ops;
    for (int i = 0; i < n; ++i) {
        Rng q(r.next());
        int what = (int)r.below(13);
        if (!ops.next()) continue;
        if (benches.empty()) { if (!module) break; benches.push_back(Workbench::Load(module, cpu(), w->options)); sim::tag("op_load_again"); }
        size_t bi = q.below(benches.size());
        auto &b = *benches[bi];
        const char *name = "run";
        switch (what) {
            default: {
                int set = (int)q.below(w->sets.size());
                if (!w->usable[{0, set}]) break;
                bool copy = q.chance(0.7);
                std::vector<Tensor> in;
                for (size_t k = 0; k < w->m.inputs.size(); ++k) in.push_back(zoo::deep(w->sets[set][k]));
                for (size_t k = 0; k < w->m.inputs.size(); ++k) b.input(w->m.inputs[k].name, in[k]);
                if (copy) in.clear();
                bool failed = false;
                try {
                    if (q.chance(0.2)) b.run_hook(w->m.op_nodes); else b.run();
                } catch (const std::exception &) { failed = true; }
                if (failed) { sim::tag("runs_failing"); name = "failing run"; break; }
                sim::tag("runs");
                for (int k = 0; k < b.output_count(); ++k) if (q.chance(0.7)) {
                    Tensor t = b.output(k);
                    if (q.chance(0.2)) hold(t.packed() ? t.field(q.below(t.fields_count())) : t.flatten(), "part");
                    else hold(t, "output");
                }
                break;
            }
            case 0: { name = "clone"; benches.push_back(b.clone()); break; }
            case 1: { name = "destroy a workbench"; benches.erase(benches.begin() + bi); break; }
            case 2: { name = "drop the model"; module = nullptr; w->m.module = nullptr; break; }
            case 3: { name = "set up no program"; b.setup(nullptr); benches.erase(benches.begin() + bi); break; }
            case 4: {
                if (!module) break;
                name = "set up another program";
                auto p = b.compile(module, w->options);
                if (q.chance(0.5)) programs.push_back(p);
                b.setup(p);
                break;
            }
            case 5: { name = "release an output"; if (!held.empty()) held.erase(held.begin() + q.below(held.size())); break; }
            case 6: { name = "release programs"; programs.clear(); break; }
            case 7: { name = "operator on its own"; Bubble bb("sigmoid", "extra"); auto op = b.offline_create(bb, true); std::vector<Tensor> out; b.offline_run(op, {zoo::rndf(q, {3, 4})}, out); hold(out[0], "offline"); break; }
        }
        verify(name);
    }
    // teardown in any order
    std::vector<int> order = {0, 1, 2, 3};
    for (int i = 3; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
    uint64_t h = 0;
    for (auto &x : held) h = sim::mix(h, zoo::hash_of(x.want));
    for (int o : order) {
        switch (o) {
            case 0: while (!benches.empty()) { benches.erase(benches.begin() + r.below(benches.size())); verify("after destroying a workbench"); } break;
            case 1: module = nullptr; w->m.module = nullptr; w = nullptr; verify("after releasing the model"); break;
            case 2: programs.clear(); verify("after releasing the programs"); break;
            case 3: if (r.chance(0.5)) while (!held.empty()) { held.erase(held.begin() + r.below(held.size())); verify("after releasing an output"); } break;
        }
    }
    verify("at the end");
    sim::event(h); sim::cover(h % 4093);
}
SCENARIO(outputs_held, "P13") {
    default_threads(1);
    { zoo::Config c; Rng q(1); c.max_ops = 1; zoo::make(q, c); }
    sim::schedule_from_seed();
    for (int round = 0; round < 2; ++round) {
        uint64_t mark = sim::heap_mark();
        held_run(sim::rng());
        std::string desc;
        size_t n = sim::heap_live_since(mark, &desc);
        if (n == 0) break;
        // once more: what is made once per process stays, what leaks leaks again
        SIM_CHECK(round == 0, "leak", "%zu blocks are still allocated after everything was released: %s", n, desc.c_str());
        sim::tag("leak_check_repeated");
    }
}

// ------------------------------------------------------------------ P19
SCENARIO(nothing_else_changes, "P19") {
    auto &r = sim::rng();
    default_threads(1);
    WorldConfig wc;
    wc.zoo.max_ops = 6; wc.sets = 2; wc.confs = 3; wc.bad = r.chance(0.4);
    if (r.chance(0.5)) wc.zoo.only = "*";
    World w = make_world(r, wc);
    std::string dump = graph_dump(w.m.module);
    sim::schedule_from_seed();
    // the caller's tensors
    std::vector<std::vector<std::string>> bytes;
    for (auto &s : w.sets) { bytes.emplace_back(); for (auto &t : s) bytes.back().push_back(zoo::bytes_of(t)); }
    struct Bench { Workbench::shared b; int conf; };
    std::vector<Bench> bs;
    auto first = w.load();
    first->runtime().set_computing_thread_number((int)r.range(1, 3));
    bs.push_back({first, 0});
    std::vector<FilterSpec> specs = w.filters;
    std::vector<ImageFilter::shared> filters;            // shared filter objects, as a caller would keep them
    for (auto &s : specs) filters.push_back(build(s));
    auto check = [&](const char *what) {
        sim::Quiet q;
        for (size_t s = 0; s < w.sets.size(); ++s) for (size_t k = 0; k < w.sets[s].size(); ++k)
            SIM_CHECK(zoo::bytes_of(w.sets[s][k]) == bytes[s][k], "input-changed", "%s changed the caller's input tensor %zu (%s)", what, k, w.m.inputs[k].name.c_str());
        SIM_CHECK(graph_dump(w.m.module) == dump, "model-changed", "%s changed the loaded model", what);
    };
    check("compiling");
    auto run = [&](Bench &x, int set, const char *when) {
        if (!w.usable[{x.conf, set}]) return;
        Out e = w.refs[{x.conf, set}];
        Out o = guarded([&] { w.set_inputs(*x.b, set, false); x.b->run(); return read_outputs(*x.b); });
        SIM_CHECK(o.same(e), "other-changed", "%s: workbench with configuration %d, inputs %d: %s", when, x.conf, set, where_differs(o, e).c_str());
        sim::tag(e.ok ? "runs" : "runs_failing");
    };
    Ops ops;
    int n = (int)r.range(4, 12);
    for (int i = 0; i < n; ++i) {
        Rng q(r.next());
        int what = (int)r.below(9);
        if (!ops.next()) continue;
        size_t k = q.below(bs.size());
        const char *name = "running";
        switch (what) {
            default: run(bs[k], (int)q.below(w.sets.size()), "run"); break;
            case 0: name = "cloning"; bs.push_back({bs[k].b->clone(), bs[k].conf}); break;
            case 1: name = "loading"; bs.push_back({w.load(), 0}); break;
            case 2: name = "compiling"; { Bench x{std::make_shared<Workbench>(cpu()), bs[k].conf}; x.b->setup(bs[k].b->compile(w.m.module, w.options)); x.conf = 0; bs.push_back(x); } break;
            case 3: name = "setting parameters"; {
                if (bs[k].conf) break;
                int c = (int)q.below(w.confs.size());
                for (auto &p : w.confs[c].params) { Tensor v = tensor::from<float>(p.second); std::string before = zoo::bytes_of(v); bs[k].b->set_operator_param(p.first.first, p.first.second, v); SIM_CHECK(zoo::bytes_of(v) == before, "input-changed", "parameter tensor changed"); }
                for (auto &f : w.confs[c].filters) bs[k].b->bind_filter(w.m.inputs[f.first].name, filters[f.second]);
                bs[k].conf = c;
                break;
            }
            case 4: name = "destroying"; if (bs.size() > 1) bs.erase(bs.begin() + k); break;
        }
        check(name);
    }
    for (auto &b : bs) for (size_t s = 0; s < w.sets.size(); ++s) run(b, (int)s, "at the end");
    check("running");
    // and a workbench loaded now is like the first one
    Bench last{w.load(), 0};
    for (size_t s = 0; s < w.sets.size(); ++s) run(last, (int)s, "loaded last");
    sim::event(zoo::hash_of(dump)); sim::cover(zoo::hash_of(dump));
}

// ------------------------------------------------------------------ P20
namespace {
struct Call { const Operator *op; std::vector<Tensor> in, out; bool after; int thread; };
}
static void hooks_run(bool others) {
    auto &r = sim::rng();
    default_threads(1);
    WorldConfig wc;
    wc.zoo.max_ops = 6; wc.sets = 2; wc.confs = 2; wc.bad = r.chance(0.6); wc.zoo.odd_names = true;
    if (r.chance(0.5)) wc.zoo.only = "*";
    if (r.chance(0.5)) wc.p_image = 0.9;
    World w = make_world(r, wc);
    sim::schedule_from_seed();
    auto prog_ops = [](const Program::shared &p) {
        std::vector<const Operator *> o;
        for (auto &i : p->instruction()) if (auto *x = dynamic_cast<OperatorInstruction *>(i.get())) o.push_back(x->op().get());
        return o;
    };
    int main_thread = sim::self_id();
    std::vector<std::thread> ts;
    // threads without a hook, running the same model
    if (others) {
        int n = (int)r.range(1, 2);
        for (int t = 0; t < n; ++t) {
            auto b = w.load();
            uint64_t s = r.next();
            ts.emplace_back([&w, b, s, t] {
                Rng q(s);
                Profiler prof; 
                std::unique_ptr<ctx::bind<Profiler>> bp;
                bool with = q.chance(0.5);
                if (with) bp.reset(new ctx::bind<Profiler>(prof));
                int k = (int)q.range(1, 3), good = 0;
                for (int i = 0; i < k; ++i) {
                    int set = (int)q.below(w.sets.size());
                    if (!w.usable[{0, set}]) continue;
                    Out e = w.refs[{0, set}];
                    Out o = guarded([&] { w.set_inputs(*b, set, true); b->run(); return read_outputs(*b); });
                    SIM_CHECK(o.same(e), "result-changed", "a thread without a hook: %s", where_differs(o, e).c_str());
                    if (e.ok) ++good;
                }
                if (with) for (auto &x : prof.board()) SIM_CHECK(x.second.count() >= (size_t)good && x.second.count() <= (size_t)k * 64, "profile", "another thread's operators were timed here");
                sim::tag("unhooked_threads");
                (void)t;
            });
        }
    }
    auto b = w.load();
    auto prog = b->compile(w.m.module, w.options);
    b->setup(prog);
    int conf = 0;
    if (w.confs.size() > 1 && r.chance(0.6)) { conf = 1; w.apply(*b, w.confs[1]); }
    auto ops_main = prog_ops(prog);
    // in the order in which they run: the filters of the inputs, then the program; input casts are not instructions
    std::vector<const Operator *> want_ops;
    for (int i = 0; i < prog->input_count(); ++i) if (auto f = prog->input_filter(i)) for (auto o : prog_ops(f)) want_ops.push_back(o);
    for (auto o : ops_main) want_ops.push_back(o);
    std::map<std::string, size_t> per_name;      // how often the operator of a name runs
    auto key_part = [](const Operator *o) { return tensor::to_string(o->get(Bubble::RetentionParam::op)) + ":" + tensor::to_string(o->get(Bubble::RetentionParam::name)); };
    for (auto o : want_ops) per_name[key_part(o)]++;

    std::vector<Call> calls;
    int throw_at = -1; bool throw_after = false;
    auto make_hook = [&](Hook &h) {
        h.before_run([&](const Hook::StructBeforeRun &i) {
            SIM_CHECK(sim::self_id() == main_thread, "hook-thread", "the hook fired in another thread");
            Call c; c.op = i.op; c.after = false; c.thread = sim::self_id();
            for (size_t k = 0; k < i.stack->size(); ++k) c.in.push_back(zoo::deep((*i.stack)[k]));
            calls.push_back(c);
            if (throw_at >= 0 && !throw_after && (int)calls.size() > throw_at) { throw_at = -1; sim::tag("throw_in_hook"); throw std::runtime_error("hook"); }
        });
        h.after_run([&](const Hook::StructAfterRun &i) {
            SIM_CHECK(sim::self_id() == main_thread, "hook-thread", "the hook fired in another thread");
            Call c; c.op = i.op; c.after = true; c.thread = sim::self_id();
            for (size_t k = 0; k < i.stack->size(); ++k) c.out.push_back(zoo::deep((*i.stack)[k]));
            calls.push_back(c);
            if (throw_at >= 0 && throw_after && (int)calls.size() > throw_at) { throw_at = -1; sim::tag("throw_in_hook"); throw std::runtime_error("hook"); }
        });
    };
    Workbench eager(cpu(), 1);
    auto judge = [&](bool ok, bool thrown, int set) {
        size_t k = 0;
        for (size_t o = 0; o < want_ops.size(); ++o) {
            if (k == calls.size() && !ok) break;                    // it failed before this operator
            SIM_CHECK(k < calls.size(), "hook-count", "operator %zu of %zu (%s) ran without its hook", o, want_ops.size(), want_ops[o]->op().c_str());
            SIM_CHECK(!calls[k].after && calls[k].op == want_ops[o], "hook-order", "call %zu is not the before-call of operator %zu (%s), but %s of %s", k, o, want_ops[o]->op().c_str(), calls[k].after ? "after" : "before", calls[k].op->op().c_str());
            auto &in = calls[k].in; ++k;
            if (k == calls.size() && !ok) break;                    // this one failed
            SIM_CHECK(k < calls.size() && calls[k].after && calls[k].op == want_ops[o], "hook-order", "the after-call of operator %zu (%s) is missing or out of order", o, want_ops[o]->op().c_str());
            // what it saw are the operator's inputs and outputs
            if (set || conf) { ++k; continue; }                             // other shapes may be refused when the operator runs outside its pool
            std::vector<Tensor> out;
            std::vector<Tensor> args; for (auto &t : in) args.push_back(zoo::deep(t));
            eager.offline_run(std::const_pointer_cast<Operator>(Operator::shared(Operator::shared(), const_cast<Operator *>(want_ops[o]))), args, out);
            SIM_CHECK(out.size() == calls[k].out.size(), "hook-data", "operator %s has %zu outputs, the hook saw %zu", want_ops[o]->op().c_str(), out.size(), calls[k].out.size());
            for (size_t j = 0; j < out.size(); ++j) SIM_CHECK(zoo::bytes_of(out[j]) == zoo::bytes_of(calls[k].out[j]), "hook-data", "output %zu of %s is not what the hook saw", j, want_ops[o]->op().c_str());
            ++k;
            sim::tag("hooked_operators");
        }
        SIM_CHECK(k == calls.size(), "hook-count", "%zu hook calls, %zu expected (ok %d, thrown %d)", calls.size(), k, ok, thrown);
        if (ok) SIM_CHECK(calls.size() == want_ops.size() * 2, "hook-count", "%zu hook calls for %zu operators", calls.size(), want_ops.size());
    };
    std::map<std::string, size_t> timed;         // expected counts on the bench's own board
    bool own_profile = false, own_hook = false;
    std::map<std::string, std::string> values;   // what a hook saw, by node
    std::pair<int, int> values_of{-1, -1};
    int n = (int)r.range(2, 7);
    Ops ops;
    for (int i = 0; i < n; ++i) {
        Rng q(r.next());
        int what = (int)r.below(7);
        if (!ops.next()) continue;
        int set = (int)q.below(w.sets.size());
        if (!w.usable[{conf, set}]) continue;
        Out e = w.refs[{conf, set}];
        bool hooked = q.chance(0.7), profiled = q.chance(0.5);
        if (q.chance(0.3)) { own_profile = q.chance(0.6); b->do_profile(own_profile); }
        if (q.chance(0.4)) { sim::clock_jump(q.chance(0.5) ? -(int64_t)q.below(4000000000000ull) : (int64_t)q.below(4000000000000ull)); sim::tag("clock_jumps"); }
        bool thrown = false;
        calls.clear();
        Profiler prof;
        Out o;
        {
            Hook h; make_hook(h);
            std::unique_ptr<ctx::bind<Hook>> bh; std::unique_ptr<ctx::bind<Profiler>> bp;
            if (hooked) {
                bh.reset(new ctx::bind<Hook>(h));
                if (q.chance(0.2) && !want_ops.empty()) { throw_at = (int)q.below(want_ops.size() * 2); throw_after = throw_at & 1; thrown = true; }
            }
            if (profiled) bp.reset(new ctx::bind<Profiler>(prof));
            // the workbench's own hook: what the named nodes computed, instead of the caller's hook
            own_hook = !thrown && q.chance(0.3);
            std::vector<std::string> nodes;
            if (own_hook) { for (auto &x : w.m.op_nodes) if (q.chance(0.6)) nodes.push_back(x); if (q.chance(0.1)) nodes.push_back("no such node"); }
            o = guarded([&] { w.set_inputs(*b, set, true); if (own_hook) b->run_hook(nodes); else b->run(); return read_outputs(*b); });
            if (own_hook) {
                sim::tag("run_hook");
                if (o.ok) for (auto &x : nodes) {
                    if (!values.count(x) || values_of != std::make_pair(conf, set)) continue;
                    SIM_CHECK(zoo::bytes_of(b->output(x)) == values[x], "hook-data", "run_hook gives another value for %s than a hook saw", x.c_str());
                    sim::tag("run_hook_values");
                }
            }
            if (thrown && throw_at >= 0) { thrown = false; throw_at = -1; }     // an earlier error came first
            // bindings are as they were
            SIM_CHECK(ctx::get<Hook>() == (hooked ? &h : nullptr), "binding", "the hook binding changed");
            SIM_CHECK(ctx::get<Profiler>() == (profiled ? &prof : nullptr), "binding", "the profiler binding changed");
        }
        if (thrown) SIM_CHECK(!o.ok, "result-changed", "a throwing hook was ignored");
        else SIM_CHECK(o.same(e), "result-changed", "hook %d, profiler %d: %s", hooked, profiled, where_differs(o, e).c_str());
        if (hooked && !own_hook) {
            judge(o.ok, thrown, set);
            if (o.ok) { values.clear(); values_of = {conf, set}; for (auto &c : calls) if (c.after && !c.out.empty()) values[c.op->name()] = zoo::bytes_of(c.out[0]); }
        }
        else if (hooked) { /* run_hook binds its own */ }
        else SIM_CHECK(calls.empty(), "hook-count", "a hook fired after it was unbound");
        // the profiler in effect: the workbench's own one if it profiles, else the bound one
        auto expect_board = [&](const Board<float> &board, std::map<std::string, size_t> want, const char *which) {
            std::map<std::string, size_t> got;
            for (auto &x : board) {
                auto p = x.first.find("):");
                std::string k = x.first;
                if (k.compare(0, 3, "op(") == 0 && p != std::string::npos) got[k.substr(p + 2)] += x.second.count();
            }
            for (auto &x : want) if (x.second) SIM_CHECK(got[x.first] == x.second, "profile-count", "%s: operator %s was timed %zu times, it ran %zu times", which, x.first.c_str(), got[x.first], x.second);
            for (auto &x : got) SIM_CHECK(want.count(x.first), "profile-count", "%s: unknown operator %s was timed", which, x.first.c_str());
        };
        if (o.ok) {
            if (own_profile) for (auto &x : per_name) timed[x.first] += x.second;
            if (profiled && !own_profile) expect_board(prof.board(), per_name, "bound profiler");
            sim::tag("profiled_runs", profiled || own_profile);
        } else if (own_profile) { own_profile = false; b->do_profile(false); b->profiler().board().clean(); timed.clear(); }
        if (own_profile || !timed.empty()) expect_board(b->profiler().board(), timed, "workbench profiler");
        SIM_CHECK(!profiled || !own_profile || prof.board().begin() == prof.board().end(), "profile-count", "operators were timed on the caller's board although the workbench profiles itself");
        sim::event(o.hash());
        (void)what;
    }
    for (auto &t : ts) t.join();
}
SCENARIO(hooks_profile, "P20") { hooks_run(false); }
SCENARIO(hooks_threads, "P20") { hooks_run(true); }
