// P16: context bindings nest, are restored on every exit and stay inside their thread.
#include "bench.h"
#include "global/operator_factory.h"
#include "frontend/intime.h"
#include "runtime/inside/parallel.h"
#include "core/device_context.h"
#include <set>
using namespace scn;
using namespace bench;

namespace {
// ------------------------------------------------------------------ all context types
const char *const CTX_NAME[] = {"Workbench", "RuntimeContext", "ThreadPool", "DeviceContext", "Graph", "Hook", "Profiler"};
enum { C_BENCH, C_RUNTIME, C_POOL, C_DEVICE, C_GRAPH, C_HOOK, C_PROFILER, C_COUNT };
template <class F> void with_type(int k, F f) {
    switch (k) {
        case C_BENCH: f((Workbench *)nullptr); break;
        case C_RUNTIME: f((RuntimeContext *)nullptr); break;
        case C_POOL: f((ThreadPool *)nullptr); break;
        case C_DEVICE: f((DeviceContext *)nullptr); break;
        case C_GRAPH: f((Graph *)nullptr); break;
        case C_HOOK: f((Hook *)nullptr); break;
        default: f((Profiler *)nullptr); break;
    }
}
struct GetF { void *p; template <class T> void operator()(T *) { p = (void *)ctx::get<T>(); } };
void *current(int k) { GetF g{nullptr}; with_type(k, [&](auto *t) { g(t); }); return g.p; }
using State = std::vector<void *>;
State everything() { State s; for (int k = 0; k < C_COUNT; ++k) s.push_back(current(k)); return s; }
void expect_state(const State &want, const char *where) {
    for (int k = 0; k < C_COUNT; ++k) {
        void *got = current(k);
        SIM_CHECK(got == want[k], "binding", "after %s the bound %s is %s", where, CTX_NAME[k], got == nullptr ? "gone" : want[k] == nullptr ? "set although nothing was bound" : "another one");
    }
}
void expect_refs(const State &want) {
    for (int k = 0; k < C_COUNT; ++k) with_type(k, [&](auto *t) {
        using T = typename std::remove_pointer<decltype(t)>::type;
        bool thrown = false;
        T *p = nullptr;
        try { p = &ctx::ref<T>(); } catch (const NoLiteContextException &) { thrown = true; }
        SIM_CHECK(thrown == (want[k] == nullptr), "unbound", "using the %s context %s", CTX_NAME[k], thrown ? "is refused although it is bound" : "is not refused although nothing is bound");
        if (!thrown) SIM_CHECK((void *)p == want[k], "binding", "the %s context refers to another object", CTX_NAME[k]);
    });
}
void nothing_bound(const char *where) { expect_state(State(C_COUNT, nullptr), where); expect_refs(State(C_COUNT, nullptr)); }

// ------------------------------------------------------------------ bare bindings
struct Out_ { int levels; };
struct Nest {
    Rng q; int id; Ops &ops; State cur; int budget; char *fake; bool threads_ok;
    Nest(uint64_t s, int i, Ops &o, char *f) : q(s), id(i), ops(o), cur(C_COUNT, nullptr), budget((int)q.range(4, 24)), fake(f), threads_ok(true) {}
    void check() { expect_state(cur, "a scope"); if (q.chance(0.3)) expect_refs(cur); }
    void scope(int depth) {
        int n = (int)q.range(1, 5);
        for (int i = 0; i < n && budget > 0; ++i) {
            --budget;
            int what = (int)q.below(10), k = (int)q.below(C_COUNT);
            void *p = q.chance(0.15) ? nullptr : (void *)(fake + q.below(8) * 16 + 1024 * id);
            bool leave = q.chance(0.25); int levels = (int)q.range(1, 3);
            if (what < 5 && depth < 6) {
                State before = cur;
                sim::tag("nested_bindings");
                try {
                    with_type(k, [&](auto *t) {
                        using T = typename std::remove_pointer<decltype(t)>::type;
                        ctx::bind<T> b((T *)p);
                        cur[k] = p;
                        check();
                        scope(depth + 1);
                        check();
                        if (leave) { sim::tag("throw_scopes"); throw Out_{levels}; }
                    });
                    cur[k] = before[k];
                } catch (Out_ &o) {
                    cur[k] = before[k];
                    check();
                    if (--o.levels > 0 && depth > 0) throw;
                }
                // what a nested scope set of other types stays; its own type is back
                check();
            } else if (what < 7) {
                with_type(k, [&](auto *t) { using T = typename std::remove_pointer<decltype(t)>::type; ctx::set<T>((T *)p); });
                cur[k] = p;
            } else if (what == 7 && threads_ok) {
                std::thread([] { nothing_bound("starting a thread"); ctx::set<Graph>((Graph *)0x10); ctx::set<Workbench>((Workbench *)0x10); }).join();
                sim::tag("child_threads");
            } else if (what == 8) sim::yield_point();
            check();
        }
    }
};
}
SCENARIO(ctx_nesting, "P16") {
    sim::schedule_from_seed();
    Rng &r = sim::rng();
    static char fake[1024 * 8];
    int nt = (int)r.range(1, 4);
    Ops ops;
    std::vector<std::function<void()>> fs;
    for (int t = 0; t < nt; ++t) {
        uint64_t s = r.next();
        if (!ops.next()) continue;
        fs.push_back([s, t, &ops] {
            nothing_bound("starting a thread");
            Nest n(s, t, ops, fake);
            n.scope(0);
            n.check();
            sim::event(s);
        });
    }
    threads(fs);
    nothing_bound("other threads bound theirs");
}

// ------------------------------------------------------------------ bindings made by the system itself
namespace {
struct Actor;
thread_local Actor *me = nullptr;
enum Kind { K_NONE, K_BENCH, K_CLONE, K_ANY_BENCH, K_PROGRAM };
struct Actor {
    Rng q; int id = 0; Module::shared module;
    Kind kind = K_NONE; Workbench *bench = nullptr;     // whose code runs now
    int throw_at = -1, calls = 0;
    int depth = 0; std::set<Workbench *> running;
    std::vector<Workbench::shared> bs;
    std::vector<ImageFilter::shared> filters;
    Actor(uint64_t s) : q(s) {}
};
struct As {     // the library works for this workbench
    Kind k; Workbench *b;
    As(Kind kind, Workbench *bench) : k(me->kind), b(me->bench) { me->kind = kind; me->bench = bench; }
    ~As() { me->kind = k; me->bench = b; }
};
void judge(const char *where) {
    if (!me) return;
    auto W = ctx::get<Workbench>(); auto R = ctx::get<RuntimeContext>(); auto P = ctx::get<ThreadPool>(); auto D = ctx::get<DeviceContext>();
    SIM_CHECK(D != nullptr && D->computing_device.type() == CPU, "wrong-context", "%s of an operator: no device is bound", where);
    if (me->kind == K_PROGRAM || me->kind == K_NONE) return;
    if (me->kind == K_BENCH) SIM_CHECK(W == me->bench, "wrong-context", "%s of an operator: the bound workbench is %s", where, W ? "not the one it runs in" : "missing");
    if (me->kind == K_CLONE) SIM_CHECK(W != nullptr && W != me->bench, "wrong-context", "%s of an operator that is being cloned: the bound workbench is %s", where, W ? "the origin" : "missing");
    if (me->kind == K_ANY_BENCH) SIM_CHECK(W != nullptr, "wrong-context", "%s of an operator: no workbench is bound", where);
    SIM_CHECK(R == &W->runtime(), "wrong-context", "%s of an operator: the bound runtime is not that of its workbench", where);
    SIM_CHECK(P == &W->runtime().thread_pool(), "wrong-context", "%s of an operator: the bound thread pool is not that of its workbench", where);
}
// y = x + 1, looking around while it does
class Probe : public Operator {
public:
    Probe() { field("id", OPTIONAL, tensor::from<int32_t>(0)); }
    void touch_pool(const char *where) {
        judge(where);
        auto P = ctx::get<ThreadPool>();
        if (!P || !me || !me->q.chance(0.5)) return;
        int n = (int)me->q.range(1, 4);
        std::vector<int> hit(n, 0); int *h = hit.data();
        TS_PARALLEL_FOR_BEGIN(i, 0, n)
            h[i] += 1;
        TS_PARALLEL_FOR_END()
        for (int x : hit) SIM_CHECK(x == 1, "wrong-context", "%s of an operator: the bound thread pool does not work", where);
        judge(where);
    }
    void init() override { touch_pool("init"); maybe_throw("init"); }
    int infer(Stack &stack, std::vector<Tensor::Prototype> &output) override {
        judge("infer");
        output.assign(1, stack[0].proto());
        return 1;
    }
    int run(Stack &stack) override;
    void maybe_throw(const char *what) {
        if (me && me->throw_at >= 0 && me->calls++ == me->throw_at) { me->throw_at = -1; sim::tag("throw_operators"); throw Exception(std::string("probe fails in ") + what); }
    }
};
Tensor small(Rng &q) {
    Tensor t(FLOAT32, {1, (int)q.range(1, 3), (int)q.range(1, 3), 2});
    for (int i = 0; i < t.count(); ++i) t.data<float>()[i] = float(q.below(10));
    return t;
}
struct Running { Workbench *b; Running(Workbench *x) : b(x) { me->running.insert(b); } ~Running() { me->running.erase(b); } };
void run_bench(Workbench &b, Rng &q, bool hook) {
    Tensor x = small(q);
    As as(K_BENCH, &b);
    Running rn(&b);
    b.input("x", x);
    if (hook) b.run_hook({"b"}); else b.run();
    auto y = tensor::cast(FLOAT32, b.output("y"));
    SIM_CHECK(y.count() == x.count(), "result", "wrong number of values");
    for (int i = 0; i < x.count(); ++i) SIM_CHECK(y.data<float>()[i] == x.data<float>()[i] + 3, "result", "the model computes %f of %f", y.data<float>()[i], x.data<float>()[i]);
    sim::tag("runs");
}
Workbench::shared load_bench() { As as(K_ANY_BENCH, nullptr); return Workbench::Load(me->module, cpu()); }
int Probe::run(Stack &stack) {
    touch_pool("run");
    maybe_throw("run");
    Tensor x = stack[0].view(memory_device());
    Tensor y = *stack.push(x.proto(), memory_device());
    for (int i = 0; i < x.count(); ++i) y.data<float>()[i] = x.data<float>()[i] + 1;
    if (me && me->depth < 2) {
        Rng &q = me->q;
        State now = everything();
        ++me->depth;
        if (q.chance(0.1)) { std::thread([] { nothing_bound("starting a thread inside an operator"); }).join(); sim::tag("child_threads"); }
        if (q.chance(0.25)) {
            int saved = me->throw_at; me->throw_at = q.chance(0.4) ? me->calls + (int)q.below(4) : -1;
            try {
                Workbench::shared other;
                for (auto &b : me->bs) if (!me->running.count(b.get()) && q.chance(0.5)) other = b;
                if (!other) other = load_bench();
                run_bench(*other, q, q.chance(0.3));
            } catch (const Exception &) {}
            me->throw_at = saved;
            sim::tag("nested_runs");
        }
        --me->depth;
        expect_state(now, "a run inside an operator");
    }
    judge("run");
    return 1;
}
void reg_probe() { OperatorCreator::Register(CPU, "sim_ctx_probe", [] { return std::make_shared<Probe>(); }); }
sim::InitReg reg_probe_init(&reg_probe);

Module::shared probe_module() {
    Graph g;
    ctx::bind<Graph> bg(g);
    auto x = bubble::param("x");
    auto a = bubble::op("a", "sim_ctx_probe", {x});
    auto one = bubble::data("one", tensor::from<float>(1));
    auto b = bubble::op("b", name::layer::add(), {a, one});
    auto y = bubble::op("y", "sim_ctx_probe", {b});
    a->set("id", tensor::from<int32_t>(1));
    y->set("id", tensor::from<int32_t>(2));
    auto m = std::make_shared<Module>();
    m->load(g);
    return m;
}
Module::shared broken_module() {
    Graph g;
    ctx::bind<Graph> bg(g);
    auto x = bubble::param("x");
    auto a = bubble::op("a", "sim_ctx_probe", {x});
    bubble::op("y", "sim_no_such_operator", {a});
    auto m = std::make_shared<Module>();
    m->load(g);
    return m;
}
struct Objects {
    RuntimeContext runtime[2]; ThreadPool pool{1}; DeviceContext device[2]; Graph graph[2]; Hook hook[2]; Profiler profiler[2];
    Objects() { for (auto &d : device) d.initialize(cpu()); for (auto &x : runtime) { x.bind_flow(DynamicSyncMemoryController::Make(MemoryDevice(CPU), false)); x.bind_dynamic(DynamicSyncMemoryController::Make(MemoryDevice(CPU), false)); } }
};
struct Walk {
    Actor &a; Objects &o; Ops &ops; std::vector<int> en; size_t at = 0; State cur{State(C_COUNT, nullptr)};
    bool solo = false;
    std::vector<void *> pinned;       // workbenches an outer scope will restore
    Walk(Actor &aa, Objects &oo, Ops &ops_, int n) : a(aa), o(oo), ops(ops_) { for (int i = 0; i < n; ++i) en.push_back(ops.next()); }
    bool is_pinned(void *p) { for (auto x : pinned) if (x == p) return true; return false; }
    void scope(int depth) {
        Rng &q = a.q;
        int n = (int)q.range(2, 6);
        for (int i = 0; i < n && at < en.size(); ++i) {
            bool on = en[at++];
            if (!on) continue;
            int what = (int)q.below(17);
            bool fail = q.chance(0.3);
            a.calls = 0; a.throw_at = fail ? (int)q.below(6) : -1;
            const char *name = "";
            bool ok = true; std::string err;
            auto pick = [&]() -> Workbench::shared { return a.bs.empty() ? nullptr : a.bs[q.below(a.bs.size())]; };
            if (what == 0 && depth < 3) {           // a scope of the caller
                a.throw_at = -1;
                int k = (int)q.below(C_COUNT);
                void *p = nullptr;
                size_t j = q.below(2);
                Workbench::shared keep;
                switch (k) {
                    case C_BENCH: keep = pick(); p = keep.get(); break;
                    case C_RUNTIME: p = &o.runtime[j]; break;
                    case C_POOL: p = &o.pool; break;
                    case C_DEVICE: p = &o.device[j]; break;
                    case C_GRAPH: p = &o.graph[j]; break;
                    case C_HOOK: p = &o.hook[j]; break;
                    case C_PROFILER: p = &o.profiler[j]; break;
                }
                State before = cur;
                pinned.push_back(before[C_BENCH]); pinned.push_back(keep.get());
                bool leave = q.chance(0.3);
                try {
                    with_type(k, [&](auto *t) {
                        using T = typename std::remove_pointer<decltype(t)>::type;
                        ctx::bind<T> b((T *)p);
                        cur[k] = p;
                        expect_state(cur, "entering a scope");
                        scope(depth + 1);
                        if (leave) throw Exception("leave");
                    });
                } catch (const Exception &) { sim::tag("throw_scopes"); }
                cur[k] = before[k];
                pinned.pop_back(); pinned.pop_back();
                name = "leaving a scope";
            } else {
                bool oom = solo && !fail && q.chance(0.2);
                if (oom) { sim::AllocFault f; f.enabled = true; f.device_only = true; f.fail_at = 1 + q.below(6); f.thread = sim::self_id(); sim::alloc_fault_arm(f); }
                try {
                    switch (what) {
                        case 1: name = "loading"; a.bs.push_back(load_bench()); break;
                        case 2: { name = "cloning"; auto b = pick(); if (!b) break; As as(K_CLONE, b.get()); a.bs.push_back(b->clone()); sim::tag("clones"); break; }
                        case 3: case 4: case 5: { name = fail ? "a failing run" : "a run"; auto b = pick(); if (b) run_bench(*b, q, what == 5); break; }
                        case 6: {
                            name = "destroying a workbench";
                            if (a.bs.empty()) break;
                            size_t k = q.below(a.bs.size());
                            if (is_pinned(a.bs[k].get())) break;
                            if (cur[C_BENCH] == a.bs[k].get()) cur[C_BENCH] = nullptr;
                            a.bs.erase(a.bs.begin() + k);
                            break;
                        }
                        case 7: { name = "compiling"; auto b = pick(); if (!b) break; As as(K_BENCH, b.get()); b->compile(a.module); break; }
                        case 8: { name = "a failing compilation"; auto b = pick(); if (!b) break; As as(K_BENCH, b.get()); b->compile(broken_module()); break; }
                        case 9: { name = "setup_context"; auto b = pick(); if (!b) break; b->setup_context(); cur[C_BENCH] = b.get(); break; }
                        case 10: {
                            name = "attaching a filter"; auto b = pick(); if (!b) break;
                            auto f = std::make_shared<ImageFilter>(cpu()); f->to_float();
                            b->bind_filter("x", f);
                            break;
                        }
                        case 11: {
                            name = "an operation outside a model";
                            bool bound = cur[C_BENCH] != nullptr;
                            Tensor s;
                            std::string e;
                            try { s = intime::add(tensor::from<float>(2), tensor::from<float>(5)); } catch (const Exception &x) { e = x.what(); }
                            if (oom && bound && !e.empty()) throw Exception(e);
                            SIM_CHECK(bound == e.empty(), "unbound", bound ? "intime::add fails with a bound workbench: %s" : "intime::add works without a workbench%s", e.c_str());
                            if (bound) SIM_CHECK(tensor::to_float(s) == 7, "result", "2 + 5 is not 7");
                            break;
                        }
                        case 12: {
                            name = "running one operator"; auto b = pick(); if (!b) break;
                            As as(K_BENCH, b.get()); Running rn(b.get());
                            Bubble bubble("sim_ctx_probe", "one");
                            auto op = b->offline_create(bubble, q.chance(0.5));
                            std::vector<Tensor> out; std::vector<Tensor::Prototype> proto;
                            if (q.chance(0.5)) b->offline_infer(op, {small(q)}, proto);
                            b->offline_run(op, {small(q)}, out);
                            break;
                        }
                        case 13: { name = "changing the thread number"; auto b = pick(); if (!b) break; b->runtime().set_computing_thread_number((int)q.range(1, 3)); break; }
                        case 14: { name = "setting a parameter"; auto b = pick(); if (!b) break; As as(K_BENCH, b.get()); b->set_operator_param("a", "id", tensor::from<int32_t>(7)); break; }
                        case 15: {
                            name = "a filter run"; if (cur[C_BENCH] == nullptr) break;
                            ImageFilter f(cpu()); f.to_float(); f.scale(2);
                            Tensor img(UINT8, {2, 2, 1}); for (int k = 0; k < 4; ++k) img.data<uint8_t>()[k] = uint8_t(k);
                            auto y = tensor::cast(FLOAT32, f.run(img));
                            SIM_CHECK(y.count() == 4 && y.data<float>()[3] == 6, "result", "the filter computes something else");
                            break;
                        }
                        case 16: {
                            name = "cloning a program"; auto b = pick(); if (!b) break;
                            auto p = [&] { As as(K_BENCH, b.get()); return b->compile(a.module); }();
                            As as(K_PROGRAM, nullptr);
                            auto c = p->clone();
                            break;
                        }
                        default: name = "building a module"; probe_module(); break;
                    }
                } catch (const Exception &e) { ok = false; err = e.what(); }
                uint64_t refused = 0;
                if (oom) { sim::alloc_fault_disarm(&refused); if (refused) sim::tag("alloc_fail"); }
                a.kind = K_NONE; a.bench = nullptr;
                bool fired = (a.throw_at < 0 && fail) || refused;
                if (what == 8 && !a.bs.empty()) SIM_CHECK(!ok, "result", "an unknown operator was compiled");
                else SIM_CHECK(ok || fired, "result", "%s failed: %s", name, err.c_str());
                if (!ok) sim::tag("failed_calls");
            }
            expect_state(cur, name);
            if (q.chance(0.2)) expect_refs(cur);
        }
    }
};
void ctx_system(int threads_max) {
    default_threads((int)sim::rng().range(1, 2));
    sim::schedule_from_seed();
    Rng &r = sim::rng();
    auto module = probe_module();
    nothing_bound("building a module");
    int nt = (int)r.range(1, threads_max);
    Ops ops;
    std::vector<std::unique_ptr<Actor>> actors; std::vector<std::unique_ptr<Objects>> objects; std::vector<std::unique_ptr<Walk>> walks;
    for (int t = 0; t < nt; ++t) {
        actors.emplace_back(new Actor(r.next())); objects.emplace_back(new Objects());
        actors.back()->module = module; actors.back()->id = t;
        walks.emplace_back(new Walk(*actors.back(), *objects.back(), ops, (int)r.range(4, 12)));
    }
    if (nt == 1) walks[0]->solo = true;
    std::vector<std::function<void()>> fs;
    for (int t = 0; t < nt; ++t) fs.push_back([&, t] {
        nothing_bound("starting a thread");
        me = actors[t].get();
        auto &w = *walks[t];
        me->bs.push_back(load_bench());
        while (w.at < w.en.size()) w.scope(0);
        expect_state(w.cur, "everything");
        Workbench *last = ctx::get<Workbench>();
        bool mine = false;
        for (auto &b : me->bs) mine = mine || b.get() == last;
        me->bs.clear();
        SIM_CHECK(!mine || ctx::get<Workbench>() == nullptr, "binding", "a destroyed workbench is still bound");
        me = nullptr;
        sim::event(sim::mix(w.at, t));
    });
    threads(fs);
    nothing_bound("other threads worked");
}
}
SCENARIO(ctx_workbench, "P16") { ctx_system(1); }
SCENARIO(ctx_workbench_threads, "P16") { ctx_system(3); }
