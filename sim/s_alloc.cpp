// P12: a failing allocation of tensor memory, at any point of any operation on models and workbenches.
#include "bench.h"
#include "global/hard_allocator.h"
#include "core/memory.h"
using namespace scn;
using namespace bench;

void (*on_cpu_oom)() = nullptr;
// The CPU allocator, marked so that the heap of the simulator can tell tensor memory from everything else.
static void mark_cpu_allocator() {
    auto real = HardAllocator::Query(CPU);
    HardAllocator::Register(CPU, [real](int id, size_t n, void *mem, size_t used) -> void * {
        sim::DeviceAlloc d;
        try { return real(id, n, mem, used); }
        catch (const OutOfMemoryException &) { if (on_cpu_oom) on_cpu_oom(); throw; }
    });
}
static sim::InitReg reg(mark_cpu_allocator);

namespace {
struct Held { Tensor t; std::string want; };
struct State {
    World *w;
    Module::shared module;
    Workbench::shared b;            // may be null after a failed load
    Conf conf;
    std::vector<Workbench::shared> others;   // usable benches with the default configuration
    std::vector<Held> held;
};
std::string module_bytes(const Module::shared &m) {
    StringStreamWriter out;
    Module::Save(out, m);
    return out.str();
}
// One operation: returns a printable result that depends only on the arguments.
struct Op {
    const char *name;
    std::function<std::string(State &)> run;
};
std::string of(const Out &o) { return pack_out(o); }
std::string run_set(State &s, Workbench &b, int set) {
    s.w->set_inputs(b, set, false);
    b.run();
    return of(read_outputs(b));
}
}
static void allocfail_run(Rng r) {
    WorldConfig wc;
    wc.zoo.max_ops = 5; wc.sets = 2; wc.confs = 2; wc.bad = false;
    if (r.chance(0.6)) wc.zoo.only = "*";
    World w = make_world(r, wc);
    int threads = r.chance(0.3) ? 2 : 1;
    State s;
    s.w = &w; s.module = w.m.module;
    std::string saved = module_bytes(s.module);
    auto ready = [&](State &st) { if (!st.b) { st.b = w.load(); st.conf = Conf(); } };
    auto expect = [&](const Conf &c, int set, bool &known) -> std::string {
        for (size_t k = 0; k < w.confs.size(); ++k) if (!(w.confs[k] < c) && !(c < w.confs[k])) {
            known = w.usable[{(int)k, set}] && w.refs[{(int)k, set}].ok;
            return known ? of(w.refs[{(int)k, set}]) : std::string();
        }
        known = false; return std::string();
    };
    // filters on their own
    struct Filter { FilterSpec f; Tensor img; std::string want; };
    std::vector<Filter> filters;
    for (int i = 0; i < 2; ++i) {
        Filter f{r.chance(0.5) ? random_filter(r, 3) : FilterSpec(), zoo::rnd(r, UINT8, {1, (int)r.range(3, 8), (int)r.range(3, 8), 3}), ""};
        auto pr = sim::probe(1, [&](int) { auto x = build(f.f); x->compile(); return zoo::bytes_of(x->run(f.img)); });
        if (pr[0].ok) { f.want = pr[0].value; filters.push_back(f); }
    }
    Ops ops;
    int n = (int)r.range(2, 6);
    bool later = r.chance(0.5);          // several failures in one history
    for (int i = 0; i < n; ++i) {
        int what = (int)r.below(12);
        Rng q(r.next());
        if (!ops.next()) continue;
        Op op{nullptr, nullptr};
        int set = (int)q.below(w.sets.size());
        std::string want; bool has_want = false;
        switch (what) {
            default: case 0: case 1: case 2: {
                ready(s);
                bool k; want = expect(s.conf, set, k);
                if (!k) continue;
                has_want = true;
                bool hook = q.chance(0.25), copy = q.chance(0.5);
                op = {hook ? "run_hook" : "run", [set, hook, copy](State &st) {
                    st.w->set_inputs(*st.b, set, copy);
                    st.b->runtime().set_computing_thread_number(1);
                    if (hook) st.b->run_hook(st.w->m.op_nodes); else st.b->run();
                    return of(read_outputs(*st.b));
                }};
                break;
            }
            case 3: {
                bool k; want = expect(Conf(), set, k);
                if (!k) continue;
                has_want = true;
                op = {"load and run", [set, threads](State &st) {
                    auto b = Workbench::Load(st.module, cpu(), st.w->options);
                    b->runtime().set_computing_thread_number(threads);
                    auto o = run_set(st, *b, set);
                    st.b = b; st.conf = Conf();
                    return o;
                }};
                break;
            }
            case 4: {
                ready(s);
                bool k; want = expect(s.conf, set, k);
                if (!k) continue;
                has_want = true;
                op = {"clone and run", [set](State &st) {
                    auto c = st.b->clone();
                    auto o = run_set(st, *c, set);
                    st.b = c;
                    return o;
                }};
                break;
            }
            case 5: {
                ready(s);
                bool k; want = expect(Conf(), set, k);
                if (!k) continue;
                has_want = true;
                op = {"compile, set up and run", [set](State &st) {
                    auto p = st.b->compile(st.module, st.w->options);
                    st.b->setup(p); st.conf = Conf();
                    return run_set(st, *st.b, set);
                }};
                break;
            }
            case 6: case 7: {
                ready(s);
                int k = (int)q.below(w.confs.size());
                bool kn; want = expect(w.confs[k], set, kn);
                if (!kn || (!s.conf.params.empty() || !s.conf.filters.empty())) continue;
                has_want = true;
                op = {"reconfigure and run", [set, k](State &st) {
                    st.w->apply(*st.b, st.w->confs[k]);
                    auto o = run_set(st, *st.b, set);
                    st.conf = st.w->confs[k];
                    return o;
                }};
                break;
            }
            case 8: {
                want = saved; has_want = true;
                op = {"save", [](State &st) { return module_bytes(st.module); }};
                break;
            }
            case 9: {
                bool k; want = expect(Conf(), set, k);
                if (!k) continue;
                has_want = true;
                op = {"read, load and run", [saved, set](State &st) {
                    StringStreamReader in(saved);
                    auto m = Module::Load(in);
                    auto b = Workbench::Load(m, cpu(), st.w->options);
                    return run_set(st, *b, set);
                }};
                break;
            }
            case 10: {
                Tensor t = zoo::rnd(q, q.chance(0.5) ? FLOAT32 : INT32, {(int)q.range(1, 4), (int)q.range(1, 5), (int)q.range(1, 3)});
                Tensor packed; packed.pack({t, zoo::rnd(q, UINT8, {3})});
                int kind = (int)q.below(6);
                op = {"tensor", [t, packed, kind](State &) {
                    switch (kind) {
                        case 0: return zoo::bytes_of(t.clone());
                        case 1: return zoo::bytes_of(tensor::cast(FLOAT64, t));
                        case 2: return zoo::bytes_of(tensor::clone(FLOAT32, t));
                        case 3: { StringStreamWriter o; packed.serialize(o); StringStreamReader in(o.str()); Tensor x; x.externalize(in); return zoo::bytes_of(x); }
                        case 4: { Tensor x = packed.clone(); return zoo::bytes_of(x); }
                        default: { auto a = tensor::array::to_float(t); Tensor x = tensor::build(FLOAT32, Shape({int(a.size())}), a); return zoo::bytes_of(x); }
                    }
                }};
                want = op.run(s); has_want = true;
                break;
            }
            case 11: {
                if (filters.empty()) continue;
                auto fl = q.pick(filters);
                op = {"image filter", [fl](State &) { auto x = build(fl.f); x->compile(); return zoo::bytes_of(x->run(fl.img)); }};
                want = fl.want; has_want = true;
                break;
            }
        }
        (void)has_want;
        sim::AllocFault af; af.device_only = true;
        int tries = later ? (int)q.range(1, 3) : 1;
        std::vector<std::string> in;
        for (auto &t : w.sets[set]) in.push_back(zoo::bytes_of(t));
        for (int k = 0; k < tries; ++k) {
            af.fail_at = 1 + (uint64_t)std::floor(std::exp(q.unit() * q.unit() * 4.4) - 1);       // 1..81, mostly early
            af.fail_count = q.chance(0.6) ? 1 : 1000000;
            sim::alloc_fault_arm(af);
            std::string got; bool threw = false; std::string err;
            try { got = op.run(s); } catch (const std::exception &e) { threw = true; err = e.what(); }
            uint64_t fired = 0; uint64_t total = sim::alloc_fault_disarm(&fired);
            sim::tag("alloc_failures", fired);
            if (sim::verbose()) sim::note("%d %s: allocation %llu fails, %llu made (%s): %s", i, op.name, (unsigned long long)af.fail_at, (unsigned long long)total, af.fail_count == 1 ? "once" : "and all later ones", threw ? err.c_str() : "no error");
            SIM_CHECK(fired || !threw, "unexpected-error", "operation %d (%s) failed without a failing allocation: %s", i, op.name, err.c_str());
            SIM_CHECK(threw || got == want, "wrong-after-failure", "operation %d (%s): allocation %llu (of %llu) failed, no error was reported and the result is wrong", i, op.name, (unsigned long long)af.fail_at, (unsigned long long)total);
            if (threw) { sim::tag("alloc_fail_reported"); SIM_CHECK(!err.empty(), "no-message", "operation %d (%s) failed without a message", i, op.name); }
            else if (fired) sim::tag("alloc_fail_survived");
            // nothing the caller owns changed
            for (auto &h : s.held) SIM_CHECK(zoo::bytes_of(h.t) == h.want, "output-changed", "an output held by the caller changed when operation %d (%s) failed", i, op.name);
            for (size_t x = 0; x < in.size(); ++x) SIM_CHECK(zoo::bytes_of(w.sets[set][x]) == in[x], "input-changed", "an input changed when operation %d (%s) failed", i, op.name);
            sim::cover(sim::mix(what * 64 + std::min<uint64_t>(af.fail_at, 40), zoo::hash_of(op.name)));
        }
        // memory is available again
        if (!strcmp(op.name, "reconfigure and run")) {
            // a setting that failed may have been applied partly; set everything again
        }
        std::string got; std::string err; bool threw = false;
        try { got = op.run(s); } catch (const std::exception &e) { threw = true; err = e.what(); }
        SIM_CHECK(!threw, "not-usable-again", "operation %d (%s) still fails after memory is available again: %s", i, op.name, err.c_str());
        SIM_CHECK(got == want, "not-usable-again", "operation %d (%s) gives a wrong result after memory is available again", i, op.name);
        sim::event(zoo::hash_of(got));
        if (s.b && s.b->output_count() && q.chance(0.5)) { Tensor t = s.b->output(0); s.held.push_back({t, zoo::bytes_of(t)}); }
        SIM_CHECK(module_bytes(s.module) == saved, "model-changed", "the model changed when operation %d (%s) failed", i, op.name);
    }
}
SCENARIO(bench_allocfail, "P12") {
    default_threads(1);
    sim::schedule_from_seed();
    Rng r = sim::rng().fork(1);
    for (int round = 0; round < 2; ++round) {
        uint64_t mark = sim::heap_mark();
        allocfail_run(r);
        std::string desc;
        size_t n = sim::heap_live_since(mark, &desc);
        if (n == 0) break;
        SIM_CHECK(round == 0, "leak", "%zu blocks are still allocated after everything was released: %s", n, desc.c_str());
        sim::tag("leak_check_repeated");
    }
}
