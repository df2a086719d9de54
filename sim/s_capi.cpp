// P15: the C interface under failing arguments, failing storage, failing memory and several threads.
#include "bench.h"
#include "api/common.h"
#include "api/tensor.h"
#include "api/module.h"
#include "api/program.h"
#include "api/workbench.h"
#include "api/image_filter.h"
#include "api/intime.h"
#include "api/setup.h"
#include "api/declare_module.h"
#include "api/declare_tensor.h"
#include "api/declare_program.h"
#include "api/declare_workbench.h"
#include "api/declare_image_filter.h"
using namespace scn;
using namespace bench;

namespace {
enum Must { MAY, FAIL, OK };
struct Env {
    World w;
    std::string bytes;               // the saved model
    ts_Module *module = nullptr, *module2 = nullptr;     // shared by all threads, never changed
    int fault_owner = -1;
    bool mem_faults = false, plain_faults = false;
};
struct Mem { const std::string *data; size_t pos = 0, limit; int piece; };
uint64_t mem_read(void *obj, char *buf, uint64_t n) {
    Mem &m = *(Mem *)obj;
    size_t all = std::min(m.data->size(), m.limit), left = m.pos < all ? all - m.pos : 0;
    size_t k = std::min<size_t>(n, left);
    if (m.piece) k = std::min<size_t>(k, m.piece);
    memcpy(buf, m.data->data() + m.pos, k);
    m.pos += k;
    return k;
}
void mem_rewind(void *obj) { ((Mem *)obj)->pos = 0; }

struct Bench { ts_Workbench *b = nullptr; bool plain = true; bool program = true; };      // plain: default configuration
struct Actor {
    Env &e; Rng q; int id;
    std::string lem;                 // what the last call of this thread left
    bool bad = false;                // an argument of the next call is invalid
    bool fault = false;
    std::vector<ts_Tensor *> ts;
    std::vector<Bench> bs;
    std::vector<ts_Program *> ps;
    std::vector<ts_ImageFilter *> fs;
    std::vector<ts_Module *> ms;
    ts_Workbench *bound = nullptr;
    uint64_t hash = 0;
    Actor(Env &ee, uint64_t seed, int i) : e(ee), q(seed), id(i) {}
    ~Actor() {
        for (auto t : ts) ts_free_Tensor(t);
        for (auto p : ps) ts_free_Program(p);
        for (auto &b : bs) ts_free_Workbench(b.b);
        for (auto f : fs) ts_free_ImageFilter(f);
        for (auto m : ms) ts_free_Module(m);
    }
    static std::string message() { const char *m = ts_last_error_message(); return m ? m : ""; }
    // Runs one call. The result, converted to bool, tells whether it succeeded.
    template <class F> auto call(const char *name, F f, Must must = MAY) -> decltype(f()) {
        { sim::Quiet qq; std::string now = message(); SIM_CHECK(now == lem, "foreign-error", "before %s in thread %d: the last error of this thread changed from '%s' to '%s'", name, id, lem.c_str(), now.c_str()); }
        decltype(f()) r{};
        bool armed = false;
        if (e.mem_faults && e.fault_owner < 0 && q.chance(0.35)) {
            e.fault_owner = id; armed = true;
            sim::AllocFault af; af.device_only = !(e.plain_faults && q.chance(0.5)); af.thread = sim::self_id();
            af.fail_at = 1 + (uint64_t)std::floor(std::exp(q.unit() * q.unit() * 4.4) - 1);
            af.fail_count = af.device_only && q.chance(0.4) ? 1000000 : 1;
            sim::alloc_fault_arm(af);
        }
        std::string escaped; bool esc = false;
        try { r = f(); }
        catch (const std::exception &x) { esc = true; escaped = x.what(); }
        catch (...) { esc = true; escaped = "something that is not an exception"; }
        uint64_t fired = 0;
        if (armed) { sim::alloc_fault_disarm(&fired); e.fault_owner = -1; }
        if (fired) sim::tag("alloc_fail");
        fault = fired > 0;
        SIM_CHECK(!esc, "exception-escapes", "%s%s: an exception reaches the caller: %s", name, fault ? " (a memory allocation failed)" : "", escaped.c_str());
        bool ok = bool(r);
        std::string msg = message();
        if (sim::verbose()) sim::note("thread %d %s%s: %s %s", id, name, bad ? " (invalid argument)" : "", ok ? "ok" : "failed", msg.c_str());
        if (!ok) SIM_CHECK(!msg.empty(), "no-message", "%s fails without a message", name);
        if (must == FAIL || bad) SIM_CHECK(!ok, "accepted", "%s accepts an invalid argument", name);
        if (must == OK && !bad && !fault) SIM_CHECK(ok, "refused", "%s fails: %s", name, msg.c_str());
        sim::tag(ok ? "calls_succeeding" : "calls_failing");
        sim::cover(sim::mix(zoo::hash_of(name), (ok ? 1 : 2) + (bad ? 4 : 0) + (fault ? 8 : 0)));
        hash = sim::mix(hash, ok);
        lem = msg;
        bad = false;
        return r;
    }
    // for functions whose results cannot tell whether they succeeded
    template <class F> void run(const char *name, F f) { bool b = bad; bad = false; call(name, [&] { f(); return true; }); (void)b; lem = message(); }
    template <class T> T *nul(T *p) { if (!p || q.chance(0.05)) { bad = true; return nullptr; } return p; }
    ts_Tensor *tensor() { return ts.empty() ? nullptr : q.pick(ts); }
    Bench *bench() { return bs.empty() ? nullptr : &bs[q.below(bs.size())]; }
    ts_Workbench *raw(Bench *b) { return nul(b ? b->b : nullptr); }
    void keep(ts_Tensor *t) { if (!t) return; if (ts.size() < 8) ts.push_back(t); else { size_t k = q.below(ts.size()); ts_free_Tensor(ts[k]); lem = message(); ts[k] = t; } }
    const ts_Device *device(bool may_null = false) {
        static const ts_Device good{"cpu", 0}, d1{"cpu", 1}, none{nullptr, 0}, unknown{"nope", 0}, lng{"a name that is far too long for a device", 0};
        if (q.chance(0.85)) return &good;
        if (q.chance(0.3)) { if (!may_null) bad = true; return nullptr; }
        switch (q.below(4)) { case 0: return &d1; case 1: return &none; case 2: return &unknown; default: bad = true; return &lng; }
    }
    std::vector<int32_t> shape(int &n) {
        std::vector<int32_t> s;
        n = (int)q.below(5);
        if (q.chance(0.08)) n = (int)q.range(6, 12);
        for (int i = 0; i < n; ++i) s.push_back(n > 5 ? (int)q.range(1, 2) : (int)q.range(1, 4));
        if (n && q.chance(0.05)) s[q.below(n)] = q.chance(0.5) ? 0 : -(int)q.range(1, 3);
        if (n > 7) bad = true;
        return s;
    }
    ts_DTYPE dtype() { static const int d[] = {TS_INT8, TS_UINT8, TS_INT16, TS_INT32, TS_INT64, TS_FLOAT32, TS_FLOAT32, TS_FLOAT32, TS_FLOAT64, TS_CHAR8}; return q.chance(0.06) ? ts_DTYPE(q.pick(std::vector<int>{0, 9, 12, 14, 15, 16, 17, 100, -1})) : ts_DTYPE(d[q.below(10)]); }
    ts_Tensor *copy(const Tensor &t) { sim::Quiet qq; return new ts_Tensor(zoo::deep(t)); }

    void tensor_call() {
        switch (q.below(17)) {
            case 0: case 1: case 2: {
                int n; auto s = shape(n); auto d = dtype();
                std::vector<double> data(600, 0.25);
                bool neg = false; for (auto x : s) if (x < 0) neg = true;
                bool with = q.chance(0.7) && !neg && n <= 5;
                int64_t c = 1; for (auto x : s) c *= x;
                if (c > 500) with = false;
                bool flow = q.chance(0.3);
                const int32_t *sp = n ? s.data() : nullptr;
                if (flow) { auto where = q.chance(0.5) ? TS_HOST : TS_DEVICE; if (!bound && where == TS_DEVICE) bad = true; keep(call("ts_new_Tensor_in_flow", [&] { return ts_new_Tensor_in_flow(where, sp, n, d, with ? data.data() : nullptr); })); }
                else keep(call("ts_new_Tensor", [&] { return ts_new_Tensor(sp, n, d, with ? data.data() : nullptr); }));
                break;
            }
            case 3: { auto t = nul(tensor()); run("ts_Tensor_shape", [&] { int n = ts_Tensor_shape_size(t); auto s = ts_Tensor_shape(t); if (!t) SIM_CHECK(n == 0 && !s, "accepted", "the shape of nothing"); for (int i = 0; i < n; ++i) hash = sim::mix(hash, s[i]); }); break; }
            case 4: { auto t = nul(tensor()); run("ts_Tensor_data", [&] { auto p = ts_Tensor_data(t); auto d = ts_Tensor_dtype(t); if (!t) SIM_CHECK(!p && d == TS_VOID, "accepted", "the data of nothing"); }); break; }
            case 5: keep(call("ts_Tensor_clone", [&] { return ts_Tensor_clone(nul(tensor())); })); break;
            case 6: { auto t = nul(tensor()); call("ts_Tensor_sync_cpu", [&] { return ts_Tensor_sync_cpu(t); }, OK); break; }
            case 7: { auto t = nul(tensor()); auto d = dtype(); keep(call("ts_Tensor_cast", [&] { return ts_Tensor_cast(t, d); })); break; }
            case 8: case 9: {
                auto t = nul(tensor()); int n; auto s = shape(n);
                if (t && q.chance(0.5)) { sim::Quiet qq; int k = (int)t->pointer->count(); s = {k, 1}; n = 2; bad = false; }
                const int32_t *sp = q.chance(0.1) ? nullptr : s.data();
                if (!sp && t) bad = false;
                
                if (t && sp) { int64_t c = 1; for (auto x : s) c *= x; if (n <= 7 && c != t->pointer->count() && !std::count_if(s.begin(), s.end(), [](int v) { return v < 0; })) bad = true; }
                keep(call("ts_Tensor_reshape", [&] { return ts_Tensor_reshape(t, sp, n); }));
                break;
            }
            case 10: { auto t = nul(tensor()); keep(call("ts_Tensor_view_in_flow", [&] { return ts_Tensor_view_in_flow(t, q.chance(0.5) ? TS_HOST : TS_DEVICE); })); break; }
            case 11: {
                auto t = nul(tensor()); int n = t ? (int)t->pointer->fields_count() : 1; int k = (int)q.below(n);
                if (q.chance(0.25)) { k = q.chance(0.5) ? n + (int)q.below(3) : -1 - (int)q.below(n + 3); if (k >= n || k < -n) bad = true; }
                keep(call("ts_Tensor_field", [&] { return ts_Tensor_field(t, k); }));
                break;
            }
            case 12: { auto t = nul(tensor()); run("ts_Tensor_fields_count", [&] { int n = ts_Tensor_fields_count(t); int p = ts_Tensor_packed(t); if (!t) SIM_CHECK(!n && !p, "accepted", "the fields of nothing"); }); break; }
            case 13: {
                std::vector<ts_Tensor *> f; int n = (int)q.below(4);
                for (int i = 0; i < n; ++i) f.push_back(nul(tensor()));
                ts_Tensor **p = f.data(); if (!n) { p = q.chance(0.5) ? nullptr : (ts_Tensor **)&p; if (!p) bad = true; }
                keep(call("ts_Tensor_pack", [&] { return ts_Tensor_pack(p, n); }));
                break;
            }
            case 14: {
                auto t = nul(tensor()); int lo = 0, hi = 1;
                if (t && t->pointer->dims() > 0) hi = t->pointer->size(0); else bad = true;
                int a = (int)q.range(lo, std::max(lo, hi - 1)), b = (int)q.range(a + 1, std::max(a + 1, hi));
                if (q.chance(0.25)) { a = q.chance(0.5) ? hi + (int)q.below(3) : -1 - hi - (int)q.below(3); b = a + 1; }
                ts_Tensor *s = q.chance(0.5) ? call("ts_Tensor_slice", [&] { return ts_Tensor_slice(t, a); }) : call("ts_Tensor_slice_v2", [&] { return ts_Tensor_slice_v2(t, a, b); });
                if (s) { keep(copy(*s->pointer)); ts_free_Tensor(s); lem = message(); }     // a slice lives as long as its origin
                break;
            }
            case 15: {
                auto t = nul(tensor()); std::string path = "/sim/t" + std::to_string(id);
                bool fail = q.chance(0.3);
                if (fail) path = "/sim/no/such/directory/t";
                call("ts_Tensor_save", [&] { return ts_Tensor_save(nul(path.c_str()), t); }, fail ? MAY : OK);
                break;
            }
            case 16: {
                std::string path = "/sim/t" + std::to_string(id), got;
                bool there = sim::disk_get(path, got);
                if (there && q.chance(0.3)) { path = "/sim/none" + std::to_string(id); there = false; }
                keep(call("ts_Tensor_load", [&] { return ts_Tensor_load(nul(path.c_str())); }, there ? OK : FAIL));
                break;
            }
        }
    }
    void module_call() {
        auto fmt = q.chance(0.93) ? TS_BINARY : TS_TEXT;
        ts_Module *m = nullptr;
        size_t limit = q.chance(0.3) ? q.below(e.bytes.size()) : size_t(-1);
        Must must = limit == size_t(-1) ? OK : FAIL;
        Mem s{&e.bytes, 0, limit, q.chance(0.5) ? 0 : 33};
        std::string path = "/sim/m" + std::to_string(id);
        sim::disk_put(path, e.bytes.substr(0, limit));
        int which = (int)q.below(6);
        if (fmt != TS_BINARY && must == OK) must = MAY;
        if (fmt != TS_BINARY && (which == 0 || which == 2)) must = FAIL;
        switch (which) {
            case 0: m = call("ts_Module_Load", [&] { return ts_Module_Load(nul(path.c_str()), fmt); }, must); break;
            case 1: { bool none = q.chance(0.3); if (none) path += "x"; m = call("ts_Module_LoadV2", [&] { return ts_Module_LoadV2(path.c_str(), nul(""), 0, fmt); }, none ? FAIL : must); break; }
            case 2: m = call("ts_Module_LoadFromStream", [&] { return ts_Module_LoadFromStream(nul(&s), nul(&mem_read), fmt); }, must); break;
            case 3: m = call("ts_Module_LoadFromStreamV2", [&] { return ts_Module_LoadFromStreamV2(nul(&s), nul(&mem_read), nul(&mem_rewind), nullptr, 0, fmt); }, must); break;
            case 4: {
                bad = false;
                int i = (int)q.range(-2, (int)e.w.m.output_names.size() + 1), j = (int)q.range(-2, (int)e.w.m.inputs.size() + 1);
                int no = (int)e.module->pointer->outputs().size(), ni = (int)e.module->pointer->inputs().size();
                if (i >= no || j >= ni || (i < 0 && no != 1) || (j < 0 && ni != 1)) bad = true;
                if (bad && sim::verbose()) sim::note("fusion %d of %d to %d of %d", i, no, j, ni);
                m = call("ts_Module_Fusion", [&] { return ts_Module_Fusion(nul(e.module), i, nul(e.module2), j); });
                break;
            }
            default: return;
        }
        if (m) ms.push_back(m);
        if (ms.size() > 3) { ts_free_Module(ms[0]); ms.erase(ms.begin()); lem = message(); }
    }
    ts_Module *module() { return e.module; }
    const char *options() { static const char *o[] = {"", "--pack", "--no-pack", "--winograd", "--filter", "--nonsense", "  ", "--pack --"}; return o[q.below(8)]; }
    void program_call() {
        ts_Program *p = nullptr;
        switch (q.below(5)) {
            case 0: { auto d = device(); p = call("ts_Program_Compile", [&] { return ts_Program_Compile(nul(module()), d); }); break; }
            case 1: { auto d = device(); auto o = nul(options()); p = call("ts_Program_Compile_v2", [&] { return ts_Program_Compile_v2(nul(module()), d, o); }); break; }
            case 2: { auto x = nul(ps.empty() ? nullptr : q.pick(ps)); p = call("ts_Program_clone", [&] { return ts_Program_clone(x); }, OK); break; }
            case 3: { auto x = nul(ps.empty() ? nullptr : q.pick(ps)); run("ts_Program_input_count", [&] { int n = ts_Program_input_count(x) + ts_Program_output_count(x); SIM_CHECK(x ? n > 0 : !n, "accepted", "the inputs of a program"); }); break; }
            case 4: {
                auto x = nul(ps.empty() ? nullptr : q.pick(ps)); auto v = nul(tensor());
                std::string node = "nobody", param = "nothing";
                if (q.chance(0.3)) node = q.pick(e.w.m.op_nodes);
                call("ts_Program_set_operator_param", [&] { return ts_Program_set_operator_param(x, nul(node.c_str()), nul(param.c_str()), v); }, MAY);
                break;
            }
        }
        if (p) ps.push_back(p);
        if (ps.size() > 3) { ts_free_Program(ps[0]); ps.erase(ps.begin()); lem = message(); }
    }
    void add(ts_Workbench *b, bool plain, bool program) {
        if (!b) return;
        bs.push_back({b, plain, program});
        if (bs.size() > 3) {
            size_t k = q.below(3);
            if (bs[k].b == bound) bound = nullptr;
            ts_free_Workbench(bs[k].b); bs.erase(bs.begin() + k); lem = message();
        }
    }
    bool feed(Bench &b, int set) {
        auto &w = e.w;
        for (size_t i = 0; i < w.m.inputs.size(); ++i) {
            auto t = copy(w.sets[set][i]);
            bool ok = q.chance(0.5) ? call("ts_Workbench_input_by_name", [&] { return ts_Workbench_input_by_name(b.b, w.m.inputs[i].name.c_str(), t); }, OK)
                                    : call("ts_Workbench_input_by_name", [&] { return ts_Workbench_input_by_name(b.b, nul(w.m.inputs[i].name.c_str()), t); });
            { sim::Quiet qq; delete t; }
            if (!ok) return false;
        }
        return true;
    }
    void bench_call() {
        auto &w = e.w;
        Bench *x = bench();
        switch (q.below(20)) {
            case 0: { auto d = device(); add(call("ts_Workbench_Load", [&] { return ts_Workbench_Load(nul(module()), d); }), w.options.empty(), true); break; }
            case 1: { auto d = device(); auto o = nul(q.chance(0.6) ? w.options.c_str() : options()); add(call("ts_Workbench_Load_v2", [&] { return ts_Workbench_Load_v2(nul(module()), d, o); }), o && w.options == o, true); break; }
            case 2: { auto d = device(true); add(call("ts_new_Workbench", [&] { return ts_new_Workbench(d); }), false, false); break; }
            case 3: { auto b = raw(x); auto c = call("ts_Workbench_clone", [&] { return ts_Workbench_clone(b); }, OK); bool pl = x && x->plain, pr = x && x->program; add(c, pl, pr); break; }
            case 4: {
                auto b = raw(x); auto p = nul(ps.empty() ? nullptr : q.pick(ps));
                if (call("ts_Workbench_setup", [&] { return ts_Workbench_setup(b, p); })) { x->plain = false; x->program = true; }
                else if (x) { x->plain = false; }
                break;
            }
            case 5: { auto b = raw(x); bool v2 = q.chance(0.5); auto o = v2 ? nul(options()) : ""; auto p = !v2 ? call("ts_Workbench_compile", [&] { return ts_Workbench_compile(b, nul(module())); }) : call("ts_Workbench_compile_v2", [&] { return ts_Workbench_compile_v2(b, nul(module()), o); }); bad = false; if (p) { if (ps.size() < 3) ps.push_back(p); else { ts_free_Program(p); lem = message(); } } break; }
            case 6: { auto b = raw(x); if (call("ts_Workbench_setup_context", [&] { return q.chance(0.8) ? ts_Workbench_setup_context(b) : q.chance(0.5) ? ts_Workbench_setup_device(b) : ts_Workbench_setup_runtime(b); }, OK)) bound = b; break; }
            case 7: {
                auto b = raw(x); auto t = nul(tensor());
                int n = x && x->program ? (int)w.m.inputs.size() : 0, i = (int)q.range(-2, n + 2);
                if (i < 0 || i >= n) bad = true;
                call("ts_Workbench_input", [&] { return ts_Workbench_input(b, i, t); });
                break;
            }
            case 8: { auto b = raw(x); auto t = nul(tensor()); call("ts_Workbench_input_by_name", [&] { return ts_Workbench_input_by_name(b, nul("nobody"), t); }, FAIL); break; }
            case 9: { auto b = raw(x); int n = (int)q.range(-2, 4); call("ts_Workbench_set_computing_thread_number", [&] { return ts_Workbench_set_computing_thread_number(b, n); }); if (x) { ts_Workbench_set_computing_thread_number(x->b, 1); lem = message(); } break; }
            case 10: {
                auto b = raw(x); int n = x && x->program ? (int)w.m.inputs.size() : 0, i = (int)q.range(-2, n + 2);
                auto f = nul(fs.empty() ? nullptr : q.pick(fs));
                if (i < 0 || i >= n) bad = true;
                bool byname = q.chance(0.3);
                if (byname) call("ts_Workbench_bind_filter_by_name", [&] { return ts_Workbench_bind_filter_by_name(b, nul("nobody"), f); }, FAIL);
                else { if (x) x->plain = false; call("ts_Workbench_bind_filter", [&] { return ts_Workbench_bind_filter(b, i, f); }); }
                break;
            }
            case 11: {
                auto b = raw(x); std::string node = q.chance(0.5) ? "nobody" : q.pick(w.m.op_nodes); auto v = nul(tensor());
                if (node != "nobody" && x) x->plain = false;
                call("ts_Workbench_set_operator_param", [&] { return ts_Workbench_set_operator_param(b, nul(node.c_str()), nul("nothing"), v); }, MAY);
                break;
            }
            case 12: { auto b = raw(x); run("ts_Workbench_input_count", [&] { int n = ts_Workbench_input_count(b) + ts_Workbench_output_count(b); if (!b || !x->program) SIM_CHECK(!n, "accepted", "the inputs of no program"); }); break; }
            case 13: { auto b = raw(x); call("ts_Workbench_summary", [&] { auto s = ts_Workbench_summary(b); return s ? strlen(s) : 0; }, OK); break; }
            case 14: {
                auto b = raw(x); ts_Tensor t; int n = x && x->program ? (int)e.module->pointer->outputs().size() : 0, i = (int)q.range(-2, n + 2);
                if (i < 0 || i >= n) bad = true;
                bool byname = q.chance(0.3);
                if (byname) { call("ts_Workbench_output_by_name", [&] { return ts_Workbench_output_by_name(b, nul("nobody"), nul(&t)); }, FAIL); }
                else call("ts_Workbench_output", [&] { return ts_Workbench_output(b, i, nul(&t)); });
                break;
            }
            default: {
                if (!x) { bad = true; call("ts_Workbench_run", [&] { return ts_Workbench_run(nullptr); }); break; }
                int set = (int)q.below(w.sets.size());
                if (x->program && !w.usable.at({0, set})) break;
                if (!x->plain && x->program) break;            // outputs of other configurations are no business of this scenario
                if (x->program && !feed(*x, set)) break;
                const Out *found = nullptr; { auto it = w.refs.find({0, set}); if (it != w.refs.end()) found = &it->second; }
                static const Out nothing; const Out &want = found ? *found : nothing;
                bool ok;
                Must must = !x->program ? FAIL : want.ok ? OK : FAIL;
                if (q.chance(0.3)) {
                    std::vector<const char *> names; for (auto &n : w.m.op_nodes) names.push_back(n.c_str());
                    names.push_back("nobody");
                    if (q.chance(0.1)) { names.push_back(nullptr); bad = true; }
                    const char **p = q.chance(0.05) ? nullptr : names.data();
                    if (!p) bad = true;
                    ok = call("ts_Workbench_run_hook", [&] { return ts_Workbench_run_hook(x->b, p, (int)names.size()); }, must);
                } else ok = call("ts_Workbench_run", [&] { return ts_Workbench_run(x->b); }, must);
                if (ok) {
                    sim::tag("runs");
                    for (size_t i = 0; i < want.bytes.size(); ++i) {
                        ts_Tensor t;
                        if (!call("ts_Workbench_output", [&] { return ts_Workbench_output(x->b, (int)i, &t); }, OK)) continue;
                        sim::Quiet qq;
                        SIM_CHECK(zoo::bytes_of(*t.pointer) == want.bytes[i], "wrong-result", "output %zu read through the C interface differs", i);
                    }
                }
                break;
            }
        }
    }
    void filter_call() {
        static const float f[] = {1, 2, 3, 4};
        static const int32_t sw[] = {2, 1, 0, 5};
        if (fs.empty() || q.chance(0.15)) { auto d = device(true); auto x = call("ts_new_ImageFilter", [&] { return ts_new_ImageFilter(d); }); if (x) fs.push_back(x); if (fs.size() > 2) { ts_free_ImageFilter(fs[0]); fs.erase(fs.begin()); lem = message(); } return; }
        auto x = nul(q.pick(fs));
        int a = (int)q.range(1, 6), b = (int)q.range(1, 6), m = (int)q.below(4);
        if (q.chance(0.08)) (q.chance(0.5) ? a : b) = (int)q.range(-2, 0);
        switch (q.below(20)) {
            case 0: call("ts_ImageFilter_clear", [&] { return ts_ImageFilter_clear(x); }); break;
            case 1: call("ts_ImageFilter_compile", [&] { return ts_ImageFilter_compile(x); }); break;
            case 2: call("ts_ImageFilter_to_float", [&] { return ts_ImageFilter_to_float(x); }); break;
            case 3: call("ts_ImageFilter_scale", [&] { return ts_ImageFilter_scale(x, 0.5f); }); break;
            case 4: call("ts_ImageFilter_sub_mean", [&] { return ts_ImageFilter_sub_mean(x, nul(f), q.chance(0.9) ? 3 : (int)q.range(0, 4)); }); break;
            case 5: call("ts_ImageFilter_div_std", [&] { return ts_ImageFilter_div_std(x, nul(f), q.chance(0.9) ? 3 : (int)q.range(0, 4)); }); break;
            case 6: call("ts_ImageFilter_resize", [&] { return q.chance(0.5) ? ts_ImageFilter_resize(x, a, b) : ts_ImageFilter_resize_v2(x, a, b, ts_ResizeMethod(m)); }); break;
            case 7: call("ts_ImageFilter_resize_scalar", [&] { return q.chance(0.5) ? ts_ImageFilter_resize_scalar(x, a) : ts_ImageFilter_resize_scalar_v2(x, a, ts_ResizeMethod(m)); }); break;
            case 8: call("ts_ImageFilter_center_crop", [&] { return ts_ImageFilter_center_crop(x, a, b); }); break;
            case 9: call("ts_ImageFilter_channel_swap", [&] { return ts_ImageFilter_channel_swap(x, nul(sw), q.chance(0.9) ? 3 : (int)q.range(0, 4)); }); break;
            case 10: call("ts_ImageFilter_to_chw", [&] { return ts_ImageFilter_to_chw(x); }); break;
            case 11: call("ts_ImageFilter_prewhiten", [&] { return ts_ImageFilter_prewhiten(x); }); break;
            case 12: call("ts_ImageFilter_letterbox", [&] { return q.chance(0.5) ? ts_ImageFilter_letterbox(x, a, b, 0.5f) : ts_ImageFilter_letterbox_v2(x, a, b, 0.5f, ts_ResizeMethod(m)); }); break;
            case 13: call("ts_ImageFilter_divided", [&] { return ts_ImageFilter_divided(x, a, b, 0.5f); }); break;
            case 14: call("ts_ImageFilter_force", [&] { return q.chance(0.5) ? ts_ImageFilter_force_color(x) : ts_ImageFilter_force_gray(x); }); break;
            case 15: call("ts_ImageFilter_force_gray_v2", [&] { return ts_ImageFilter_force_gray_v2(x, nul(f), 3); }); break;
            case 16: call("ts_ImageFilter_norm_image", [&] { return ts_ImageFilter_norm_image(x, 1e-5f); }); break;
            case 17: { auto mm = call("ts_ImageFilter_module", [&] { return ts_ImageFilter_module(x); }); if (mm) { ts_free_Module(mm); lem = message(); } break; }
            default: {
                Tensor img = zoo::rnd(q, q.chance(0.8) ? UINT8 : FLOAT32, {1, (int)q.range(2, 6), (int)q.range(2, 6), q.chance(0.85) ? 3 : (int)q.range(1, 4)});
                if (q.chance(0.1)) img = zoo::rnd(q, UINT8, {(int)q.range(1, 3)});
                auto t = copy(img);
                auto out = call("ts_ImageFilter_run", [&] { return ts_ImageFilter_run(x, nul(t)); });
                { sim::Quiet qq; delete t; }
                keep(out);
                break;
            }
        }
    }
    void intime_call() {
        auto t = nul(tensor());
        if (t && t->pointer->dims() == 0 && q.chance(0.8)) return;
        int d = t ? (int)t->pointer->dims() : 1;
        switch (q.below(8)) {
            case 0: {
                std::vector<int32_t> p; for (int i = 0; i < d; ++i) p.push_back(i);
                for (int i = d - 1; i > 0; --i) std::swap(p[i], p[q.below(i + 1)]);
                if (q.chance(0.3) && d) { switch (q.below(3)) { case 0: p.push_back(0); break; case 1: p[q.below(d)] = d + (int)q.below(3); break; case 2: p[q.below(d)] = -1 - d - (int)q.below(3); break; } bad = true; }
                if (p.empty()) p.push_back(0);
                keep(call("ts_intime_transpose", [&] { return ts_intime_transpose(t, nul(p.data()), (int)p.size()); }));
                break;
            }
            case 1: keep(call("ts_intime_sigmoid", [&] { return ts_intime_sigmoid(t); })); break;
            case 2: { auto o = nul(tensor()); std::vector<const ts_Tensor *> v{t, o}; int dim = (int)q.range(-d - 2, d + 2); keep(call("ts_intime_concat", [&] { return ts_intime_concat(v.data(), 2, dim); })); break; }
            case 3: { int dim = (int)q.range(-d - 2, d + 2); if (dim < -d || dim >= d) bad = true; keep(call("ts_intime_softmax", [&] { return ts_intime_softmax(t, dim, q.chance(0.5)); })); break; }
            case 4: { auto x = dtype(); keep(call("ts_intime_cast", [&] { return ts_intime_cast(t, x); })); break; }
            case 5: {
                int rows = d; if (q.chance(0.2)) rows = d + 1;
                Tensor pad = zoo::rnd(q, q.chance(0.9) ? INT32 : FLOAT32, {rows, 2}); if (pad.dtype() == INT32) for (int i = 0; i < pad.count(); ++i) pad.data<int32_t>()[i] = (int)q.below(2);
                if (rows != d) bad = true;
                auto p = copy(pad); keep(call("ts_intime_pad", [&] { return ts_intime_pad(t, nul(p), 0.5f); })); { sim::Quiet qq; delete p; }
                break;
            }
            case 6: { auto o = nul(tensor()); keep(call("ts_intime_matmul", [&] { return ts_intime_matmul(t, o, q.chance(0.5)); })); break; }
            case 7: {
                std::vector<int32_t> s; for (int i = 0; i < d; ++i) s.push_back(-1);
                bool fit = d >= 2; if (fit) { int k = (int)q.below(d - 1); s[k] = (int)q.range(1, 5); s[k + 1] = (int)q.range(1, 5); } else bad = true;
                if (q.chance(0.15)) { s.push_back(-1); bad = true; }
                if (s.empty()) s.push_back(1);
                auto sz = copy(zoo::ints(std::vector<int32_t>(s.begin(), s.end())));
                int m = (int)q.below(4);
                keep(call("ts_intime_resize2d", [&] { return ts_intime_resize2d(t, nul(sz), m); }));
                { sim::Quiet qq; delete sz; }
                break;
            }
        }
    }
    void step() {
        switch (q.below(12)) {
            case 0: case 1: case 2: case 3: tensor_call(); break;
            case 4: module_call(); break;
            case 5: program_call(); break;
            case 6: case 7: case 8: bench_call(); break;
            case 9: filter_call(); break;
            case 10: intime_call(); break;
            case 11: switch (q.below(3)) {
                case 0: { std::string m = "message " + std::to_string(q.below(100)); ts_set_error_message(m.c_str()); SIM_CHECK(message() == m, "lost-error", "the message set is not the last error"); lem = m; break; }
                case 1: run("ts_set_error_message", [&] { ts_set_error_message(nullptr); }); break;
                case 2: run("ts_setup", [&] { ts_free_Tensor(nullptr); ts_free_Workbench(nullptr); ts_free_Module(nullptr); ts_free_Program(nullptr); ts_free_ImageFilter(nullptr); }); break;
            }
        }
        bad = false;
    }
};
void capi_run(Rng r, int nt, bool faults, bool plain) {
    Env e;
    WorldConfig wc;
    wc.zoo.max_ops = 3; wc.zoo.max_count = 300; wc.zoo.side = 5; wc.zoo.p_big = 0; wc.sets = 2; wc.confs = 1; wc.bad = r.chance(0.4);
    if (r.chance(0.4)) wc.zoo.only = "*";
    e.w = make_world(r, wc);
    { StringStreamWriter o; Module::Save(o, e.w.m.module); e.bytes = o.str(); }
    e.module = new ts_Module(e.w.m.module);
    { StringStreamReader in(e.bytes); e.module2 = new ts_Module(Module::Load(in)); }
    e.mem_faults = faults; e.plain_faults = plain;
    Ops ops;
    std::vector<std::function<void()>> fs;
    for (int t = 0; t < nt; ++t) {
        int n = nt == 1 ? (int)r.range(8, 40) : (int)r.range(4, 14);
        std::vector<int> en; for (int i = 0; i < n; ++i) en.push_back(ops.next());
        uint64_t s = r.next();
        fs.push_back([&e, s, t, n, en] {
            Actor a(e, s, t);
            ts_set_error_message((std::string(4096, 'x')).c_str()); ts_set_error_message("");
            for (int i = 0; i < n; ++i) { uint64_t k = a.q.next(); if (!en[i]) continue; Rng keep(k); std::swap(a.q, keep); a.step(); std::swap(a.q, keep); }
            ctx::set<Workbench>(nullptr);
            { sim::Quiet qq; sim::event(a.hash); }
        });
    }
    if (nt == 1) fs[0](); else threads(fs);
    delete e.module; delete e.module2;
    for (int t = 0; t < nt; ++t) { sim::disk_remove("/sim/t" + std::to_string(t)); sim::disk_remove("/sim/m" + std::to_string(t)); }
}
void capi(int nt, bool faults, bool plain) {
    default_threads(1);
    sim::schedule_from_seed();
    Rng r = sim::rng().fork(7);
    if (nt > 1) nt = (int)r.range(2, 3);
    for (int round = 0; round < 2; ++round) {
        ts_set_error_message(std::string(4096, 'x').c_str());
        uint64_t mark = sim::heap_mark();
        capi_run(r, nt, faults, plain);
        std::string desc;
        size_t n = sim::heap_live_since(mark, &desc);
        if (n == 0) break;
        SIM_CHECK(round == 0, "leak", "%zu blocks are still allocated after everything was released: %s", n, desc.c_str());
        sim::tag("leak_check_repeated");
    }
}
}
SCENARIO(capi_calls, "P15") { capi(1, false, false); }
SCENARIO(capi_threads, "P15") { capi(3, false, false); }
SCENARIO(capi_memory, "P15") { capi(1, true, false); }
